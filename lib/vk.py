"""Common machinery of the runtime monitors: case scheduling, verdicts, evidence.

A check module (checks/pNN.py) defines
    RULE   - text: how cases are made and what makes one non-trivial
    KINDS  - {name: (function, quick_count, thorough_count)}
    NEED   - {event name: minimum count in a quick run}: below it the run is inconclusive
    optional: PROCS (parallelism), ASSUME (list of text), KNOWN (list of functions: known-finding witnesses)
Each function gets (rng, M): it draws a case from rng, drives the real code through
its public interface and reports to the monitor M, which raises Violation on a mismatch.
"""
import hashlib
import importlib
import json
import logging
import os
import pprint
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TTPDIR = os.path.join(REPO, "ttp") + os.sep
STEP_BUDGET = 30_000_000


class Violation(Exception):
    def __init__(self, msg, key=None, **detail):
        Exception.__init__(self, msg)
        self.key = key
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Inconclusive(Exception):
    pass


def short(o, n=1500):
    s = o if isinstance(o, str) else pprint.pformat(o, width=110)
    return s if len(s) <= n else s[:n] + "...[%d chars]" % len(s)


def jsonable(o, depth=0):
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o if not isinstance(o, str) or len(o) < 6000 else o[:6000] + "..."
    if depth > 12:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:200]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    return repr(o)[:500]


class M:
    """Monitor context of one case."""

    def __init__(self, case_id, scratch_root, verbose=False):
        self.case_id = case_id
        self.events = {}
        self.sigs = set()
        self.evals = 0
        self.trivial = False
        self.detail = {}
        self.sample = None
        self._scratch = None
        self._scratch_root = scratch_root
        self.verbose = verbose

    # ---- bookkeeping
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def case(self, sig, nontrivial=True, sample=None, n=1):
        """one evaluated case with the given signature"""
        self.evals += n
        if nontrivial:
            self.sigs.add(hashlib.md5(repr(sig).encode("utf-8", "replace")).hexdigest()[:16])
        if sample is not None:
            self.sample = sample

    def note(self, **kw):
        self.detail.update(kw)

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="case_", dir=self._scratch_root)
        return self._scratch

    def write(self, name, text, mode="w"):
        path = os.path.join(self.scratch, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if "b" in mode:
            with open(path, mode) as f:
                f.write(text)
        else:
            with open(path, mode, encoding="utf-8", newline="") as f:
                f.write(text)
        return path

    def cleanup(self):
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)

    # ---- verdicts
    def fail(self, msg, key=None, **detail):
        raise Violation(msg, key=key, **detail)

    def eq(self, got, expected, what, key=None, **detail):
        self.ev("comparisons")
        if not same(got, expected):
            raise Violation("%s: got differs from expected" % what, key=key,
                            got=got, expected=expected, diff=first_diff(got, expected), **detail)

    def true(self, cond, what, key=None, **detail):
        self.ev("comparisons")
        if not cond:
            raise Violation(what, key=key, **detail)

    # ---- driving the real code
    def parse(self, template, data=None, one=True, result=None, **kw):
        """build a parser, parse, return result"""
        from ttp import ttp
        self.note(template=template, data=data)
        p = ttp(template=template, **kw) if data is None else ttp(data=data, template=template, **kw)
        p.parse(one=one)
        self.ev("parses")
        return p.result(**(result or {}))


def same(a, b):
    """strict structural equality: types included, dictionary order ignored"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items()) and \
            set(map(type, a)) == set(map(type, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def first_diff(a, b, path="$"):
    if type(a) is not type(b):
        return "%s: %s %r vs %s %r" % (path, type(a).__name__, short(repr(a), 200), type(b).__name__, short(repr(b), 200))
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s: unexpected key %r = %s" % (path, k, short(repr(a[k]), 200))
        for k in b:
            if k not in a:
                return "%s: missing key %r = %s" % (path, k, short(repr(b[k]), 200))
        for k in a:
            if not same(a[k], b[k]):
                return first_diff(a[k], b[k], "%s[%r]" % (path, k))
        return None
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_diff(x, y, "%s[%d]" % (path, i))
        if len(a) != len(b):
            return "%s: length %d vs %d, extra %s" % (path, len(a), len(b), short(repr(a[len(b):] or b[len(a):]), 300))
        return None
    return "%s: %r vs %r" % (path, short(repr(a), 200), short(repr(b), 200)) if a != b else None


# ------------------------------------------------------------------ coverage
class Reach:
    """lines and functions of the code under test reached (first hits only)"""
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.funcs = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "verif-reach")
        except ValueError:
            return
        E = mon.events

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(TTPDIR):
                self.lines.add((fn[len(TTPDIR):], lineno))
            return mon.DISABLE

        def pstart(code, off):
            fn = code.co_filename
            if fn.startswith(TTPDIR):
                self.funcs.add((fn[len(TTPDIR):], code.co_qualname))
            return mon.DISABLE

        mon.register_callback(self.TOOL, E.LINE, line)
        mon.register_callback(self.TOOL, E.PY_START, pstart)
        mon.set_events(self.TOOL, E.LINE | E.PY_START)


def with_step_budget(fn, budget=STEP_BUDGET):
    """run fn counting executed lines of the code under test; logical time, not wall clock"""
    mon = sys.monitoring
    tool = 4
    count = [0]
    mon.use_tool_id(tool, "verif-steps")

    def line(code, lineno):
        if not code.co_filename.startswith(TTPDIR):
            return mon.DISABLE
        count[0] += 1
        if count[0] > budget:
            raise StepBudget(count[0])

    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    mon.restart_events()
    try:
        return fn(), count[0]
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


# ------------------------------------------------------------------ running
def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(mod, prop, kind, seed, index, scratch_root, limit, verbose=False):
    """returns (M, verdict, info); verdict in ok, violation, timeout, error"""
    fn = mod.KINDS[kind][0]
    cid = {"property": prop, "kind": kind, "seed": seed, "index": index}
    m = M(cid, scratch_root, verbose)

    def go():
        rng = random.Random("%s/%s/%s/%s" % (seed, prop, kind, index))
        fn(rng, m)

    cwd = os.getcwd()
    try:
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            go()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return m, "ok", None
    except Violation as e:
        return m, "violation", {"msg": str(e), "key": e.key, "detail": dict(m.detail, **e.detail)}
    except Inconclusive as e:
        return m, "timeout", {"msg": "inconclusive: %s" % e, "detail": m.detail}
    except CaseTimeout:
        # decide on logical steps, not on the clock
        m.cleanup()
        m2 = M(cid, scratch_root, verbose)
        m = m2
        try:
            signal.setitimer(signal.ITIMER_REAL, max(90, limit * 4))
            try:
                _, steps = with_step_budget(lambda: fn(random.Random("%s/%s/%s/%s" % (seed, prop, kind, index)), m2))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            return m2, "ok", None
        except StepBudget:
            return m2, "violation", {"msg": "no end after %d executed lines of ttp" % STEP_BUDGET, "key": "no-end", "detail": m2.detail}
        except CaseTimeout:
            return m2, "timeout", {"msg": "case did not end within the wall clock watchdog", "detail": m2.detail}
        except Violation as e:
            return m2, "violation", {"msg": str(e), "key": e.key, "detail": dict(m2.detail, **e.detail)}
        except (Exception, SystemExit) as e:
            return m2, "violation", {"msg": "exception %s: %s" % (type(e).__name__, e), "key": "exception", "detail": dict(m2.detail, traceback=traceback.format_exc()[-3000:])}
    except (MemoryError, BlockingIOError) as e:
        return m, "error", {"msg": "environment: %r" % e, "detail": m.detail}
    except OSError as e:
        if e.errno in (28, 12, 11, 24):
            return m, "error", {"msg": "environment: %r" % e, "detail": m.detail}
        return m, "violation", {"msg": "exception %s: %s" % (type(e).__name__, e), "key": "exception", "detail": dict(m.detail, traceback=traceback.format_exc()[-3000:])}
    except (Exception, SystemExit) as e:
        return m, "violation", {"msg": "exception %s: %s" % (type(e).__name__, e), "key": "exception", "detail": dict(m.detail, traceback=traceback.format_exc()[-3000:])}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        m.cleanup()


def quiet_logging():
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger("ttp").propagate = True


def import_ttp(cache):
    os.environ["TTPCACHEFOLDER"] = cache
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import ttp as t
    if not os.path.abspath(t.__file__).startswith(TTPDIR):
        raise SystemExit("ttp imported from %s, not from %s" % (t.__file__, TTPDIR))
    return t


def worker(mod, prop, seed, jobs, scratch, deadline, limit, conn, max_viol):
    signal.signal(signal.SIGALRM, _alarm)
    reach = Reach()
    reach.start()
    agg = {"evals": 0, "events": {}, "sigs": set(), "by_kind": {}, "violations": [], "timeouts": [], "errors": [], "samples": {}, "skipped": 0}
    devnull = os.open(os.devnull, os.O_WRONLY)
    for kind, index in jobs:
        if time.time() > deadline:
            agg["skipped"] += 1
            continue
        m, verdict, info = run_case(mod, prop, kind, seed, index, scratch, limit)
        agg["evals"] += max(m.evals, 1)
        agg["by_kind"][kind] = agg["by_kind"].get(kind, 0) + max(m.evals, 1)
        for k, v in m.events.items():
            agg["events"][k] = agg["events"].get(k, 0) + v
        agg["sigs"] |= m.sigs
        if kind not in agg["samples"] and (m.sample or m.detail) and verdict == "ok":
            agg["samples"][kind] = jsonable(m.sample or {k: short(v, 1200) for k, v in m.detail.items()})
        if verdict == "violation":
            info["case"] = m.case_id
            agg["violations"].append(info)
            if len(agg["violations"]) >= max_viol:
                break
        elif verdict == "timeout":
            info["case"] = m.case_id
            agg["timeouts"].append(info)
            if len(agg["timeouts"]) >= 5:
                break
        elif verdict == "error":
            info["case"] = m.case_id
            agg["errors"].append(info)
            if len(agg["errors"]) >= 5:
                break
    os.close(devnull)
    agg["lines"] = reach.lines
    agg["funcs"] = reach.funcs
    for lst in ("violations", "timeouts", "errors"):
        agg[lst] = jsonable_list(agg[lst])
    conn.send(agg)
    conn.close()


def jsonable_list(lst):
    out = []
    for i in lst:
        d = dict(i)
        d["detail"] = {k: jsonable(v) for k, v in i.get("detail", {}).items()}
        out.append(d)
    return out


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return {k["key"]: k for k in d.get("findings", []) if k["property"] == prop and k.get("status", "open") == "open"}


def main(argv):
    import multiprocessing as mp
    prop = argv[0].upper()
    args = argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = os.path.join(os.environ.get("VERIF_CWD", "."), args.pop(0))
        elif a == "--scale":
            scale = float(args.pop(0))
        else:
            raise SystemExit("unknown argument %s" % a)
    t0 = time.time()
    scratch = os.environ["VERIF_SCRATCH"]
    cache = os.path.join(scratch, "cache")
    os.makedirs(cache, exist_ok=True)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    t = import_ttp(cache)
    quiet_logging()
    for _ in range(3):
        t.ttp()
    mod = importlib.import_module(prop.lower())
    known = load_known(prop)
    limit = getattr(mod, "CASE_LIMIT", 60)
    evdir = os.path.join(VERIF, "evidence")
    if os.environ.get("VERIF_EVIDENCE"):
        evdir = os.environ["VERIF_EVIDENCE"]
    os.makedirs(evdir, exist_ok=True)

    if replay:
        with open(replay) as f:
            c = json.load(f)["case"]
        signal.signal(signal.SIGALRM, _alarm)
        m, verdict, info = run_case(mod, prop, c["kind"], c["seed"], c["index"], scratch, limit * 4, verbose=True)
        print("replay verdict:", verdict)
        if info:
            print(info["msg"])
            for k, v in info["detail"].items():
                print("--- %s:\n%s" % (k, short(v, 6000)))
        if verdict == "violation" and info["key"] not in known:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0 if verdict in ("ok", "violation") else 3

    import glob
    for old in glob.glob(os.path.join(evdir, "replay", prop + "-*.json")):
        os.unlink(old)
    jobs = []
    for kind, (fn, nq, nt) in mod.KINDS.items():
        n = nq if tier == "quick" else nt
        if n > 1:
            n = max(1, int(n * scale))
        jobs += [(kind, i) for i in range(n)]
    # interleave the kinds so that a deadline cuts all of them evenly
    order = random.Random("order/%s/%s" % (seed, prop))
    order.shuffle(jobs)
    nproc = getattr(mod, "PROCS", 8)
    nproc = max(1, min(nproc, len(jobs)))
    cap = 300 if tier == "quick" else float(os.environ.get("VERIF_CAP", "840"))
    deadline = t0 + cap
    procs = []
    ctx = mp.get_context("fork")
    for w in range(nproc):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(mod, prop, seed, jobs[w::nproc], scratch, deadline, limit, s, 3))
        p.start()
        s.close()
        procs.append((p, r))
    aggs = []
    dead = 0
    for p, r in procs:
        try:
            if r.poll(max(1, deadline + limit * 6 - time.time())):
                aggs.append(r.recv())
            else:
                dead += 1
                p.kill()
        except EOFError:
            dead += 1
        p.join(30)
    events, by_kind, sigs, lines, funcs, samples = {}, {}, set(), set(), set(), {}
    viol, timeouts, errors, evals, skipped = [], [], [], 0, 0
    for a in aggs:
        evals += a["evals"]
        skipped += a["skipped"]
        for k, v in a["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in a["by_kind"].items():
            by_kind[k] = by_kind.get(k, 0) + v
        sigs |= a["sigs"]
        lines |= a["lines"]
        funcs |= a["funcs"]
        for k, v in a["samples"].items():
            samples.setdefault(k, v)
        viol += a["violations"]
        timeouts += a["timeouts"]
        errors += a["errors"]
    # known findings
    fresh, kn = [], {}
    for v in viol:
        if v["key"] in known:
            kn.setdefault(v["key"], v)
        else:
            fresh.append(v)
    # known finding witnesses: a listed finding is shown by its own deterministic case
    for key, fn in getattr(mod, "WITNESS", {}).items():
        if key in known:
            mw = M({"property": prop, "kind": "witness", "seed": 0, "index": key}, scratch)
            try:
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, limit)
                try:
                    fn(mw)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Violation as e:
                if e.key == key:
                    kn.setdefault(key, {"msg": str(e)})
                else:
                    fresh.append({"msg": str(e), "key": e.key, "detail": jsonable(e.detail), "case": mw.case_id})
            except CaseTimeout:
                timeouts.append({"msg": "witness %s timed out" % key, "case": mw.case_id, "detail": {}})
            finally:
                mw.cleanup()
    need = getattr(mod, "NEED", {})
    missing = {}
    if tier == "quick":
        for k, n in need.items():
            if events.get(k, 0) < n * min(scale, 1):
                missing[k] = (events.get(k, 0), n)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "thorough", "seed": seed,
          "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                       "samples": [{"kind": k, "case": v} for k, v in sorted(samples.items())][:12],
                       "observed_events": dict(sorted(events.items())), "cases_by_kind": dict(sorted(by_kind.items())),
                       "ttp_lines_reached": len(lines), "ttp_functions_reached": len(funcs),
                       "plugin_functions_reached": sorted("%s:%s" % f for f in funcs if "/" in f[0])[:200],
                       "cases_skipped_by_time_cap": skipped, "known_findings_seen": sorted(kn)},
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    if os.environ.get("VERIF_LINES"):
        with open(os.environ["VERIF_LINES"], "w") as f:
            json.dump(sorted(lines), f)
    for k in sorted(kn):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, %d ttp lines, %.1fs%s" % (
        prop, tier, seed, evals, len(sigs), events.get("comparisons", 0), len(lines), wall,
        ", %d skipped at the time cap" % skipped if skipped else ""))
    if fresh:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(fresh[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s %s" % (v["case"].get("kind"), v["msg"][:300], short(str(v["detail"].get("diff", "")), 300)))
        return 1
    bad = []
    if dead:
        bad.append("%d worker process(es) ended without a report" % dead)
    if timeouts:
        bad.append("%d case(s) inconclusive: %s" % (len(timeouts), [(x["case"], x["msg"]) for x in timeouts[:3]]))
    if errors:
        bad.append("%d environment error(s): %s" % (len(errors), [(x["case"], x["msg"]) for x in errors[:3]]))
    if missing:
        bad.append("monitors not reached often enough: %s" % missing)
    if evals == 0 or events.get("comparisons", 0) == 0:
        bad.append("nothing was observed")
    if bad:
        print("INCONCLUSIVE property=%s %s" % (prop, "; ".join(bad)))
        return 3
    return 0


if __name__ == "__main__":
    rc = 3
    try:
        rc = main(sys.argv[1:])
    finally:
        scratch = os.environ.get("VERIF_SCRATCH", "")
        if "ttpverif." in os.path.basename(scratch):
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
