"""Driver shared by all checks: deterministic case generation, worker processes, monitor
bookkeeping, evidence, known findings and replay files.  Runs under the interpreter the
repository is built for; the code under test is imported from /repo's working tree."""
import os, sys, time, json, zlib, signal, traceback, tempfile, shutil, contextlib, io, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = max(1, min(8, int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1))))
FASTFAIL = bool(os.environ.get("VERIF_FASTFAIL"))     # development aid: stop at the first violation
SOFT = {"quick": 240.0, "thorough": 720.0}[TIER]      # no new case is started after this
CASE_LIMIT = {"quick": 300, "thorough": 420}[TIER]    # a single case never takes this long
HARD = {"quick": 600.0, "thorough": 1200.0}[TIER]

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Timeout(Exception):
    pass


class Skip(Exception):
    """the generated case does not satisfy the property's preconditions"""


class Ctx(object):
    def __init__(self, prop, case, idx):
        self.prop, self.case, self.idx = prop, case, idx
        self.seed = zlib.crc32(("%d/%s/%s/%d" % (SEED, prop, case, idx)).encode()) & 0x7fffffff
        self.rng = np.random.RandomState(self.seed)
        self.events = collections.Counter()
        self.sigs = set()
        self.desc = {}
        self.scratch = None

    # -- oracle verdicts ---------------------------------------------------------------
    def check(self, cond, msg, key=None):
        self.events["oracle verdicts"] += 1
        if not cond:
            raise Violation(msg, key)

    def close(self, got, want, msg, tol=1e-9, scale=None, key=None):
        """arrays/scalars agree to tol relative to the larger magnitude (at least `scale`)"""
        self.events["oracle verdicts"] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, got.shape, want.shape), key)
        if got.size == 0:
            return
        if got.dtype == object or want.dtype == object:
            raise Violation("%s: result is not numeric: %r" % (msg, got), key)
        if not np.all(np.isfinite(got)):
            raise Violation("%s: result is not finite" % msg, key)
        ref = max(np.max(np.abs(want)), np.max(np.abs(got)), 1e-300) if scale is None else \
            max(scale, np.max(np.abs(want)))
        err = np.max(np.abs(got - want))
        if not err <= tol * ref:
            raise Violation("%s: deviates by %.3e (scale %.3e, tolerance %.1e)" % (msg, err, ref, tol), key)

    def count(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        self.sigs.add("|".join(str(p) for p in parts))

    # -- random helpers ---------------------------------------------------------------
    def pick(self, *xs):
        return xs[self.rng.randint(len(xs))]

    def integer(self, a, b):
        return int(self.rng.randint(a, b + 1))

    def size(self, a, b, big, p=0.03):
        """a dimension: mostly a..b, now and then up to big"""
        return self.integer(b + 1, big) if self.flag(p) else self.integer(a, b)

    def flag(self, p=0.5):
        return bool(self.rng.random_sample() < p)

    def array(self, shape, dtype=float, scale=1.0):
        a = self.rng.standard_normal(shape)
        if np.issubdtype(np.dtype(dtype), np.complexfloating):
            a = a + 1j * self.rng.standard_normal(shape)
        return np.asarray(a * scale).astype(dtype)

    def herm(self, n, dtype=float, scale=1.0):
        a = self.array((n, n), dtype, scale)
        return (a + a.conj().T) / 2


@contextlib.contextmanager
def quiet():
    """silence what the code under test prints"""
    import warnings
    old = sys.stdout
    sys.stdout = io.StringIO()
    held = [m for k, m in list(sys.modules.items()) if k.startswith("lib.") and getattr(m, "stdout", None) is not None]
    olds = [m.stdout for m in held]
    for m in held:                                   # modules doing "from sys import stdout"
        m.stdout = sys.stdout
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout = old
        for m, o in zip(held, olds):
            m.stdout = o


def known_findings():
    """{(property, key): text} of findings that are recorded and not repaired"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line[len("finding:"):].split(None, 2)
            kv = dict(x.split("=", 1) for x in parts[:2])
            out[(kv["property"], kv["key"])] = parts[2] if len(parts) > 2 else ""
    return out


def _alarm(*a):
    raise Timeout("case exceeded %d s" % CASE_LIMIT)


def run_case(prop, name, fn, idx, scratch):
    """run one case; returns a record"""
    ctx = Ctx(prop, name, idx)
    np.random.seed(ctx.seed)
    d = tempfile.mkdtemp(prefix="case", dir=scratch)
    ctx.scratch = d
    cwd = os.getcwd()
    os.chdir(d)
    rec = {"case": name, "idx": idx, "seed": ctx.seed, "ok": True}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with quiet(), np.errstate(all="ignore"):
            fn(ctx)
    except Skip as e:
        rec["skip"] = str(e)
    except Violation as e:
        rec.update(ok=False, kind="violation", msg=str(e), key=e.key)
    except Timeout as e:
        rec.update(ok=False, kind="hang", msg="did not terminate: %s" % e, key=None)
    except MemoryError:
        rec.update(ok=True, error="MemoryError")
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        last = tb[-1]
        txt = "%s: %s" % (type(e).__name__, e)
        if isinstance(e, AttributeError) and not any(f.filename.startswith(REPO) for f in tb) \
                and "module" in txt and "has no attribute" in txt:
            rec["skip"] = "API not available: " + txt
            rec["unavailable"] = True
        else:
            where = [f for f in tb if f.filename.startswith(REPO)]
            at = where[-1] if where else last
            rec.update(ok=False, kind="exception", key=None,
                       msg="unexpected %s (at %s:%d in %s)" % (txt, at.filename, at.lineno, at.name),
                       trace=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    rec["t"] = time.time() - t0
    rec["events"] = dict(ctx.events)
    rec["sigs"] = sorted(ctx.sigs)
    rec["desc"] = ctx.desc
    return rec


def _worker(w, prop, tasks, cases, counter, lock, outpath, scratch, t_end):
    out = open(outpath, "w")
    while True:
        with lock:
            i = counter.value
            counter.value = i + 1
        if i >= len(tasks) or time.time() > t_end:
            break
        name, idx = tasks[i]
        out.write(json.dumps({"start": [name, idx], "at": time.time()}) + "\n")
        out.flush()
        rec = run_case(prop, name, cases[name], idx, scratch)
        out.write(json.dumps(rec, default=str) + "\n")
        out.flush()
        if FASTFAIL and not rec["ok"]:
            counter.value = len(tasks)
    out.close()


def main(prop, module):
    t0 = time.time()
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--case")
    ap.add_argument("--idx", type=int)
    ap.add_argument("--jobs", type=int, default=NPROC)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--timing", action="store_true")
    args = ap.parse_args(sys.argv[2:])

    probes = getattr(module, "PROBES", [])
    known = {k[1]: v for k, v in known_findings().items() if k[0] == prop}
    cases, tasks = {}, []
    per = []
    for name, fn, nq, nt in module.CASES:
        cases[name] = fn
        n = int(round((nq if TIER == "quick" else nt) * args.scale))
        if args.case is None or args.case == name:
            per.append([(name, i) for i in (range(n) if args.idx is None else [args.idx])])
    for name, fn in probes:
        cases["probe:" + name] = fn
        if args.case is None or args.case == "probe:" + name:
            per.append([("probe:" + name, 0)])
    # interleave so that a time cap never starves a whole family
    merged = []
    for lst in per:
        for j, t in enumerate(lst):
            merged.append(((j + 0.5) / len(lst), t))
    merged.sort(key=lambda x: x[0])
    tasks = [t for _, t in merged]

    scratch = tempfile.mkdtemp(prefix="pyten-%s-" % prop)
    records, died = [], []
    try:
        if args.jobs <= 1 or len(tasks) == 1:
            for name, idx in tasks:
                if time.time() - t0 > SOFT:
                    break
                records.append(run_case(prop, name, cases[name], idx, scratch))
                if FASTFAIL and not records[-1]["ok"]:
                    break
        else:
            import multiprocessing as mp
            c = mp.get_context("fork")
            counter, lock = c.Value("i", 0, lock=False), c.Lock()
            ps = []
            for w in range(min(args.jobs, len(tasks))):
                path = os.path.join(scratch, "w%d.jsonl" % w)
                pr = c.Process(target=_worker, args=(w, prop, tasks, cases, counter, lock, path, scratch, t0 + SOFT))
                pr.start()
                ps.append((pr, path))
            for pr, path in ps:
                pr.join(max(1.0, t0 + HARD - time.time()))
                if pr.is_alive():
                    pr.kill()
                    pr.join()
            for pr, path in ps:
                pending = None
                for line in open(path):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in r:
                        pending = r
                    else:
                        pending = None
                        records.append(r)
                if pending is not None:
                    name, idx = pending["start"]
                    died.append({"case": name, "idx": idx, "ok": False, "kind": "died",
                                 "msg": "the process running the case died or hung (exit code %s)" % pr.exitcode,
                                 "key": None, "events": {}, "sigs": [], "t": 0.0, "desc": {}})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    records += died

    violations, known_seen, stale = [], [], []
    probe_names = {"probe:" + n for n, _ in probes}
    for r in records:
        if r["case"] in probe_names:
            key = r["case"][len("probe:"):]
            if not r["ok"]:
                if key in known:
                    known_seen.append(key)
                else:
                    violations.append(r)
        elif not r["ok"]:
            if r.get("key") and r["key"] in known:
                known_seen.append(r["key"])
            else:
                violations.append(r)
    for key in sorted(set(known_seen)):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[key]))
    events = collections.Counter()
    sigs = set()
    bycase = collections.defaultdict(lambda: [0, 0, 0.0])
    unavailable = set()
    for r in records:
        events.update(r.get("events", {}))
        if r.get("unavailable"):
            unavailable.add(r["skip"])
        if "skip" not in r:
            for s in r.get("sigs", []):
                sigs.add(r["case"] + ":" + s)
        bycase[r["case"]][0] += 1
        bycase[r["case"]][1] += "skip" in r
        bycase[r["case"]][2] += r.get("t", 0.0)
    evaluated = sum(1 for r in records if "skip" not in r)
    samples = []
    seen = set()
    for r in records:
        if r["ok"] and "skip" not in r and r["case"] not in seen and r.get("sigs"):
            seen.add(r["case"])
            samples.append({"case": r["case"], "idx": r["idx"], "seed": r.get("seed"), "input": r["sigs"][:2],
                            "observed": r["events"], "detail": r.get("desc", {})})
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
          "coverage": {"evaluations": evaluated, "distinct_nontrivial": len(sigs),
                       "rule": getattr(module, "RULE", ""),
                       "samples": samples[:12],
                       "monitor_events": dict(sorted(events.items())),
                       "cases": {k: {"run": v[0], "skipped": v[1], "cpu_s": round(v[2], 2)} for k, v in sorted(bycase.items())},
                       "not_started_within_budget": len(tasks) - len(records),
                       "api_not_available": sorted(unavailable),
                       "known_findings_seen": sorted(set(known_seen))},
          "assumptions": getattr(module, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if args.case is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if args.timing:
        for k, v in sorted(bycase.items(), key=lambda kv: -kv[1][2]):
            print("  %-40s n=%d skip=%d cpu=%.1f avg=%.3f" % (k, v[0], v[1], v[2], v[2] / v[0]))
    errors = [r for r in records if r.get("error")]
    print("%s %s seed=%d: %d cases, %d distinct, %d verdicts, %.1f s, %d violations" % (
        prop, TIER, SEED, evaluated, len(sigs), events["oracle verdicts"], time.time() - t0, len(violations)))
    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for r in violations:
            if not os.environ.get("VERIF_ALL") and (r["case"], r["kind"]) in shown and len(shown) >= 1:
                continue
            shown.add((r["case"], r["kind"]))
            path = os.path.join(rdir, "%s-%s-%d-%d.json" % (prop, r["case"].replace(":", "_"), SEED, r["idx"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "record": r, "tier": TIER,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s --case %s --idx %d" % (
                               SEED, TIER, VERIF, prop, r["case"], r["idx"])}, f, indent=1, default=str)
            print("  %s[%d]: %s" % (r["case"], r["idx"], r["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        return 1
    if errors or evaluated == 0:
        print("check could not be completed: %s" % (errors[:1] or "no case ran"))
        return 2
    return 0
