"""Exploration engine: runs a list of cases in forked workers, collects statistics, violations and evidence."""
import base64
import collections
import contextlib
import io
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class RealError(Exception):
    """The code under test raised (or did not terminate)."""


HANGS = "does not terminate within"
_hangs = []


class HarnessTimeout(BaseException):
    pass


@contextlib.contextmanager
def real_code(limit=90):
    """Run code under test: its exceptions become RealError, its output is swallowed, its time is limited."""
    if _hangs:  # something does not terminate already: no need to be patient when it is narrowed down
        limit = min(limit, 25)

    def on_alarm(_s, _f):
        raise HarnessTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    except HarnessTimeout:
        _hangs.append(limit)
        raise RealError("%s %d s" % (HANGS, limit))
    except RealError:
        raise
    except RecursionError as e:
        raise RealError("RecursionError: %s" % e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "owlrl" in f.filename]
        at = " at %s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else ""
        raise RealError("%s: %s%s" % (type(e).__name__, str(e)[:300], at))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Violation:
    def __init__(self, key, detail):
        self.key, self.detail = key, detail  # key: identifies input and failure, used for known findings


class Stats(collections.Counter):
    """counters plus sets of observed outcomes (sizes are reported)"""

    def __init__(self):
        super().__init__()
        self.sets = {}

    def see(self, name, value):
        self.sets.setdefault(name, set()).add(hash(value))

    def merge(self, counts, sets):
        for k, v in counts.items():
            self[k] += v
        for k, v in sets.items():
            self.sets.setdefault(k, set()).update(v)


class Check:
    """One property.  Subclasses: cases(tier) -> list of (label, payload); run(label, payload, stats) -> violations"""
    id = None
    level = "model_checking"
    assumptions = []
    rule = ""
    technique = "bounded exhaustive enumeration, model vs. implementation (explicit-state least-fixpoint model)"
    note = None
    case_limit = 90  # seconds for one case

    def cases(self, tier):
        raise NotImplementedError

    def run(self, label, payload, stats):
        raise NotImplementedError

    def coverage(self, stats):
        return {}

    def describe(self, payload):
        return repr(payload)[:2000]


def n3(x):
    try:
        return x.n3()
    except Exception:
        return repr(x)


def show(triples, limit=12):
    rows = sorted(" ".join(n3(x) for x in t) for t in triples)
    return rows[:limit] + (["... %d more" % (len(rows) - limit)] if len(rows) > limit else [])


def _worker(check, cases, w, n, deadline, conn, max_viol, stop):
    stats = Stats()
    viol, done, samples, error = [], 0, [], None
    capped = False
    try:
        for i in range(w, len(cases), n):
            if stop.is_set():
                break
            if time.time() > deadline:
                capped = True
                break
            label, payload = cases[i]
            if sys.stderr.isatty() and os.environ.get("VERIF_DEBUG"):
                print(w, i, label, file=sys.stderr)
            try:
                vs = check.run(label, payload, stats)
            except RealError as e:
                vs = [Violation("%s | %s" % (label, e), "the code under test failed: %s" % e)]
            done += 1
            for v in vs or ():
                viol.append((i, label, v.key, v.detail))
            new = [v for v in viol if v[2] not in check.known]
            if new and not stop.is_set() and (len(new) >= max_viol or any(HANGS in str(v[3]) for v in new) or time.time() > deadline - 300):
                stop.set()
                break
    except BaseException:
        error = "case %d %s\n%s" % (i, label, traceback.format_exc())
    conn.send((w, done, viol, dict(stats), stats.sets, error, capped))
    conn.close()


def load_known(prop):
    """known_findings.json: {"findings": [{"property", "key", "what"}], "fixed": [...]}"""
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    data = json.load(open(p))
    return {f["key"]: f["what"] for f in data["findings"] if f["property"] == prop}


def execute(check, tier, seed):
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "780"))
    deadline = t0 + budget
    check.known = load_known(check.id)
    check.tier, check.seed = tier, seed
    cases = list(check.cases(tier))
    t_gen = time.time() - t0
    n = max(1, min(WORKERS, len(cases)))
    ctx = mp.get_context("fork")
    procs, stop = [], ctx.Event()  # stop: enough violations were found, nothing is to be gained by going on
    sys.stdout.flush()
    for w in range(n):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(check, cases, w, n, deadline, b, 3, stop))
        p.start()
        b.close()
        procs.append((p, a))
    stats, viol, done, errors, capped = Stats(), [], 0, [], False
    ends = None
    for p, a in procs:
        while not a.poll(1):
            if stop.is_set():
                ends = ends or time.time() + 20
                if time.time() > ends:
                    break
        if not a.poll(0):  # still busy with a case long after the others have found violations
            p.terminate()
            p.join()
            continue
        try:
            w, d, v, c, s, e, cap = a.recv()
            done += d
            viol += v
            stats.merge(c, s)
            capped |= cap
            if e:
                errors.append(e)
        except EOFError:
            errors.append("a worker died")
        p.join()
    viol.sort(key=lambda v: v[0])
    new = [v for v in viol if v[2] not in check.known]
    seen_known = sorted({v[2] for v in viol if v[2] in check.known})
    cov = {
        "cases": done, "cases_generated": len(cases), "exhaustive": bool(done == len(cases) and not capped),
        "counters": dict(sorted(stats.items())),
        "distinct_outcomes": {k: len(v) for k, v in sorted(stats.sets.items())},
        "rule": check.rule,
        "samples": [{"case": cases[i][0], "input": check.describe(cases[i][1])}
                    for i in sorted({0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1}) if i < len(cases)],
        "generation_s": round(t_gen, 2),
    }
    if check.level == "model_checking":
        cov["states"] = stats.get("states", 0)
        cov["transitions"] = stats.get("transitions", 0)
        cov["traces_validated_against_impl"] = stats.get("impl", 0)
    else:
        cov["evaluations"] = stats.get("impl", done)
        cov["distinct_nontrivial"] = max([len(v) for v in stats.sets.values()] or [0])
    if capped:
        cov["cap"] = "time budget of %d s hit after %d of %d cases; the cases are explored in the listed order, " \
                     "interleaved over %d workers" % (budget, done, len(cases), n)
    cov.update(check.coverage(stats))
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "known_findings_seen": seen_known}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s %s: %d/%d cases, %s, outcomes %s, %.1f s" % (
        check.id, tier, done, len(cases), dict(sorted(stats.items())), cov["distinct_outcomes"], ev["wall_s"]))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (check.id, check.known[k]))
    if new:
        i, label, key, detail = new[0]
        path = write_replay(check, label, cases[i][1], key, detail, tier)
        for v in new[:3]:
            print("  case %s\n    %s" % (v[1], str(v[3])[:3000].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    if errors:
        print("ERROR in the machinery:\n" + "\n".join(errors[:2]))
        return 2
    if done < 1:
        print("ERROR: nothing explored")
        return 2
    return 0


def write_replay(check, label, payload, key, detail, tier):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, check.id + ".json")
    with open(path, "w") as f:
        json.dump({"property": check.id, "case": label, "key": key, "detail": detail, "tier": tier,
                   "input": check.describe(payload),
                   "payload": base64.b64encode(pickle.dumps(payload)).decode(),
                   "replay": "python -m mc.run replay %s" % path}, f, indent=1, default=str)
    return path


def replay(check, path):
    r = json.load(open(path))
    payload = pickle.loads(base64.b64decode(r["payload"]))
    check.known, check.tier, check.seed = {}, r["tier"], 1
    list(check.cases(r["tier"])) if getattr(check, "needs_cases", False) else None
    try:
        vs = check.run(r["case"], payload, Stats())
    except RealError as e:
        vs = [Violation("", "the code under test failed: %s" % e)]
    for v in vs or ():
        print(v.detail)
    print("VIOLATION property=%s replay=%s" % (check.id, path) if vs else "not reproduced")
    return 1 if vs else 0
