"""Bounded-exhaustive exploration engine.

A check supplies a finite list of *cases* (each one a JSON value) and a function that executes the real code on one
case and compares it with an oracle.  The engine executes every case (8 worker processes, no sampling, no early
pruning), converts exceptions and non-termination of the code under test into failures, matches failures against
the committed known findings, writes one replay file per violation and the evidence file.
"""
import contextlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")

CASE_CPU_S = 20.0            # CPU seconds one call into the code under test may take before it counts as a hang
STALL_S = 240.0              # wall seconds without any finished case before the parent declares a hang
MAX_REPORT = 25
if os.environ.get("SW_DUMP"):
    MAX_REPORT = 10 ** 6      # developer mode: collect every failure


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def cpu_limit(seconds=CASE_CPU_S):
    """Raise Hang inside the block once it has used `seconds` of CPU time (load on the machine does not count)."""
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def where(exc):
    """file:function of the innermost frames of the code under test (no line numbers: they move with edits)."""
    from . import env
    root = os.path.realpath(env.REPO) + os.sep
    tb = [f for f in traceback.extract_tb(exc.__traceback__) if os.path.realpath(f.filename).startswith(root)]
    return " < ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tb[-2:])) or "harness"


class Result:
    """What one case produced."""

    def __init__(self):
        self.fails = []          # (kind, sub, detail)
        self.evals = 0           # oracle comparisons
        self.nontrivial = 0
        self.outcomes = {}       # label -> count
        self.extra = {}          # additive integer counters (states, transitions, ...)
        self.sample = None

    def fail(self, kind, sub="", detail=""):
        if len(self.fails) < 200:
            self.fails.append((kind, str(sub), str(detail)))

    def ok(self, n=1, nontrivial=True):
        self.evals += n
        if nontrivial:
            self.nontrivial += n

    def outcome(self, label, n=1):
        label = str(label)
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def expect(self, cond, kind, sub="", detail="", nontrivial=True):
        self.evals += 1
        if nontrivial:
            self.nontrivial += 1
        if not cond:
            self.fail(kind, sub, detail() if callable(detail) else detail)
        return bool(cond)

    def call(self, fn, *a, kind="exception", sub="", limit=CASE_CPU_S, **k):
        """Run code under test; an exception or hang is a failure.  Returns (True, value) or (False, None)."""
        try:
            with quiet(), cpu_limit(limit):
                return True, fn(*a, **k)
        except Hang:
            self.fail("nontermination", sub, "more than %gs of CPU in %s" % (limit, getattr(fn, "__name__", fn)))
        except Exception as e:
            self.fail(kind, sub, "%s: %s [%s]" % (type(e).__name__, str(e)[:160], where(e)))
        return False, None


def _worker(check, cases, counter, lock, chunk, out, slot, current, stop, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import numpy as np
    agg = Result()
    fails = []
    n_done = 0
    new = 0
    sample = None
    while not stop.value:
        with lock:
            lo = counter.value
            counter.value = lo + chunk
        if lo >= len(cases):
            break
        for i in range(lo, min(lo + chunk, len(cases))):
            if stop.value:
                break
            current[slot] = i
            r = Result()
            np.random.seed(0)
            try:
                check.run(cases[i], r)
            except Hang:
                r.fail("nontermination", "", "CPU limit hit outside a guarded call")
            except Exception as e:
                # in the code under test outside a guarded call, or in the oracle: an answer of unexpected form
                w = where(e)
                if w != "harness" or not r.fails:
                    r.fail("exception" if w != "harness" else "malformed", "", "%s: %s [%s]" % (
                        type(e).__name__, str(e)[:160], w if w != "harness" else traceback.format_exc(limit=-2).replace("\n", " ")))
            n_done += 1
            agg.evals += r.evals
            agg.nontrivial += 1 if r.nontrivial else 0      # distinct cases with a non-vacuous comparison
            for k, v in r.outcomes.items():
                agg.outcomes[k] = agg.outcomes.get(k, 0) + v
            for k, v in r.extra.items():
                agg.extra[k] = agg.extra.get(k, 0) + v
            if sample is None and r.sample is not None:
                sample = r.sample
            for f in r.fails:
                fails.append((i,) + f)
                if key_of(cases[i], f[0], f[1]) not in known:
                    new += 1
            current[slot] = -(i + 2)
        out.put(("beat", slot))
        if new > MAX_REPORT:
            stop.value = 1
    out.put(("done", slot, n_done, agg, fails, sample))


def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def key_of(case, kind, sub):
    return "%s|%s|%s" % (kind, case_key(case), sub)


def load_known(pid):
    try:
        with open(KNOWN) as f:
            doc = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in doc.get("findings", []) if e["property"] == pid]


def run_check(check, tier, seed, only_case=None):
    t0 = time.time()
    cases = list(check.cases(tier)) if only_case is None else [only_case]
    findings = load_known(check.ID)
    known = {}
    for e in findings:
        for k in e["cases"]:
            known[k] = e
    nproc = min(int(os.environ.get("SW_PROCS", "8")), max(1, len(cases)))
    chunk = max(1, min(64, len(cases) // (nproc * 16) or 1))
    ctx = mp.get_context("fork")
    counter, lock, stop = ctx.Value("l", 0, lock=False), ctx.Lock(), ctx.Value("i", 0)
    current = ctx.Array("l", [-1] * nproc, lock=False)
    out = ctx.Queue()
    procs = [ctx.Process(target=_worker, args=(check, cases, counter, lock, chunk, out, s, current, stop, known),
                         daemon=True) for s in range(nproc)]
    for p in procs:
        p.start()
    agg, fails, n_done, sample = Result(), [], 0, None
    live, error = set(range(nproc)), None
    last = time.time()
    while live:
        try:
            m = out.get(timeout=5)
        except Exception:
            dead = [s for s in live if not procs[s].is_alive()]
            if dead and out.empty():
                for s in dead:
                    live.discard(s)
                    i = current[s]
                    if i >= 0:       # killed while executing the code under test
                        fails.append((i, "crash", "", "worker died (exit %s)" % procs[s].exitcode))
                    else:
                        error = error or "worker died"
            if time.time() - last > STALL_S:
                for s in live:
                    if current[s] >= 0:
                        fails.append((current[s], "nontermination", "", "no progress for %gs" % STALL_S))
                break
            continue
        last = time.time()
        if m[0] == "error":
            error = m[1]
            break
        if m[0] == "done":
            _, s, n, a, f, smp = m
            live.discard(s)
            n_done += n
            agg.evals += a.evals
            agg.nontrivial += a.nontrivial
            for k, v in a.outcomes.items():
                agg.outcomes[k] = agg.outcomes.get(k, 0) + v
            for k, v in a.extra.items():
                agg.extra[k] = agg.extra.get(k, 0) + v
            fails += f
            sample = sample if sample is not None else smp
    for p in procs:
        if p.is_alive():
            p.terminate()
    if error:
        sys.stderr.write("CHECK ERROR %s: %s\n" % (check.ID, error))
        return 2
    # --- classify
    seen, viols = {}, []
    for i, kind, sub, detail in sorted(fails):
        e = known.get(key_of(cases[i], kind, sub))
        if e is not None:
            seen[e["id"]] = seen.get(e["id"], 0) + 1
        else:
            viols.append((i, kind, sub, detail))
    exhaustive = not stop.value and n_done == len(cases)
    for e in findings:
        if only_case is None:
            print("KNOWN-FINDING: property=%s %s [%s; observed %d of %d listed cases]" % (
                check.ID, e["what"], e["id"], seen.get(e["id"], 0), len(e["cases"])))
    if os.environ.get("SW_DUMP"):
        with open(os.environ["SW_DUMP"], "w") as f:
            for i, kind, sub, detail in viols:
                f.write(json.dumps({"key": key_of(cases[i], kind, sub), "detail": detail}) + "\n")
    n = 0
    for i, kind, sub, detail in viols:
        if n >= MAX_REPORT:
            break
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.json" % (check.ID, n))
        with open(path, "w") as f:
            json.dump({"property": check.ID, "case": cases[i], "kind": kind, "sub": sub, "detail": detail,
                       "replay": "bash /verif/run.sh %s --replay %s" % (check.ID, path)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        print("  kind=%s sub=%s case=%s\n  %s" % (kind, sub, case_key(cases[i])[:400], detail[:600]))
        n += 1
    if len(viols) > n:
        print("  ... and %d more failures" % (len(viols) - n))
    if only_case is None:
        write_evidence(check, tier, seed, cases, n_done, agg, exhaustive, sample, len(viols), time.time() - t0, seen)
    print("%s %s: cases=%d/%d evaluations=%d outcomes=%d violations=%d known=%d exhaustive=%s wall=%.1fs" % (
        check.ID, tier, n_done, len(cases), agg.evals, len(agg.outcomes), len(viols), sum(seen.values()), exhaustive,
        time.time() - t0))
    if os.environ.get("SW_VERBOSE"):
        print(json.dumps({"outcomes": agg.outcomes, "extra": agg.extra}, indent=1))
    return 1 if viols else 0


def write_evidence(check, tier, seed, cases, n_done, agg, exhaustive, sample, n_viol, wall, seen):
    samples = [cases[0], cases[len(cases) // 2], cases[-1]] if cases else []
    cov = {"evaluations": agg.evals, "distinct_nontrivial": agg.nontrivial, "rule": check.RULE + "; evaluations counts oracle comparisons, distinct_nontrivial the "
           "distinct enumerated cases with at least one comparison whose expected answer was not vacuous",
           "samples": samples + ([sample] if sample is not None else []), "exhaustive": exhaustive,
           "cases_enumerated": len(cases), "cases_executed": n_done,
           "distinct_outcomes": len(agg.outcomes),
           "outcomes": dict(sorted(agg.outcomes.items(), key=lambda kv: -kv[1])[:60]),
           "known_finding_cases_observed": sum(seen.values())}
    cov.update(agg.extra)
    if check.LEVEL == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
    doc = {"property": check.ID, "tier": tier, "seed": seed, "level": check.LEVEL, "coverage": cov,
           "assumptions": list(check.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": n_viol}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, check.ID + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, check.ID + ".json"))


class Check:
    ID = None
    LEVEL = "exploration"
    RULE = ""
    ASSUMPTIONS = ()

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, r):
        raise NotImplementedError
