"""Runs the cases of one property over processes, judges them and writes the evidence.

A property module (mon/props/<id>.py) has
  TITLE, RULE                      what a case is and what makes it non-trivial
  COUNT = (quick, thorough)        numbers of cases
  case(rng, rec, tier)             runs one case; reports through rec
rec.obs(kind, n)      counts what the monitors looked at
rec.seen(sig)         a state or behaviour class that was observed (distinct ones are counted)
rec.bad(mechanism, detail)   a violation; `mechanism` is what known findings are keyed by
rec.sample(text)
rec.skip(why)         the case decided nothing
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, mechanism, detail):
        Exception.__init__(self, "%s: %s" % (mechanism, detail))
        self.mechanism, self.detail = mechanism, detail


class Skip(Exception):
    pass


class Rec:
    def __init__(self):
        self.counts = collections.Counter()
        self.sigs = set()
        self.bads = []
        self.samples = []
        self.skips = collections.Counter()

    def obs(self, kind, n=1):
        self.counts[kind] += n

    def seen(self, *sig):
        self.sigs.add(hashlib.md5(repr(sig).encode("utf-8", "backslashreplace")).hexdigest()[:12])

    def bad(self, mechanism, detail):
        if len(self.bads) < 5:
            self.bads.append((mechanism, detail))
        raise Violation(mechanism, detail)

    def note(self, mechanism, detail):
        """a violation that does not end the case"""
        if len(self.bads) < 5:
            self.bads.append((mechanism, detail))

    def sample(self, text):
        if len(self.samples) < 1:
            self.samples.append(text)

    def skip(self, why):
        self.skips[why] += 1
        raise Skip(why)


def run_case(mod, pid, seed, i, tier):
    rec = Rec()
    rng = random.Random("%s/%s/%s" % (pid, seed, i))
    err = None

    def late(*a):
        raise Skip("case ran out of time")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("MON_CASE_TIME", "100")))
    try:
        mod.case(rng, rec, tier)
    except Violation:
        pass
    except Skip as e:
        if not rec.skips:
            rec.skips[str(e)] += 1
    except Exception as e:
        err = traceback.format_exc()
        if blame(e):
            # a workload that is legal throughout ended in an exception raised in the code under test
            rec.bads.append(("unexpected-exception", err[-2500:]))
            err = None
    finally:
        signal.alarm(0)
    return i, rec, err


def blame(e):
    from mon import build
    if isinstance(e, build.BuildError):
        return True
    if isinstance(e, (MemoryError, OSError)):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(os.path.join(build.REPO, "pyangbind")) or os.path.basename(last).startswith("bindings_") or "/split_%d_" % os.getpid() in last:
            return True
        tb = tb.tb_next
    return False


_ARGS = None


def _worker(args):
    pid, seed, idx, tier, deadline = args
    from mon import build
    mod = importlib.import_module("mon.props.%s" % pid.lower())
    out = []
    for i in idx:
        if time.time() > deadline:
            break
        i, rec, err = run_case(mod, pid, seed, i, tier)
        out.append((i, dict(rec.counts), rec.sigs, rec.bads, rec.samples if len(out) == 0 else [], dict(rec.skips), err))
    build.cleanup()
    return out


def known():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    only = None
    if len(argv) > 2 and argv[1] == "replay":
        r = json.load(open(argv[2]))
        pid, tier, seed, only = r["property"], r["tier"], r["seed"], r["case"]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mon-%s-" % pid)
    os.environ["MON_TMP"] = tmp
    try:
        return _main(pid, tier, seed, only, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(pid, tier, seed, only, t0):
    mod = importlib.import_module("mon.props.%s" % pid.lower())
    count = mod.COUNT[0 if tier == "quick" else 1]
    if os.environ.get("MON_COUNT"):
        count = int(os.environ["MON_COUNT"])
    if only is not None:
        _, rec, err = run_case(mod, pid, seed, only, tier)
        print("case %s: counts %s skips %s" % (only, dict(rec.counts), dict(rec.skips)))
        for m, d in rec.bads:
            print("VIOLATION %s: %s" % (m, d))
        if err:
            print(err)
        return 1 if rec.bads or err else 0
    budget = 240 if tier == "quick" else 3000
    if os.environ.get("MON_BUDGET"):
        budget = float(os.environ["MON_BUDGET"])
    deadline = t0 + budget
    nproc = int(os.environ.get("MON_PROCS") or min(8, os.cpu_count() or 2))
    chunk = max(1, min(getattr(mod, "CHUNK", 8), count // nproc or 1))
    jobs = [(pid, seed, list(range(a, min(a + chunk, count))), tier, deadline) for a in range(0, count, chunk)]
    counts, skips = collections.Counter(), collections.Counter()
    sigs, bads, samples, errs = set(), [], [], []
    done = decided = 0
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(nproc, maxtasksperchild=getattr(mod, "TASKS", 12))
    try:
        it = pool.imap(_worker, jobs)
        while True:
            try:
                res = it.next(timeout=max(1.0, deadline + 120 - time.time()))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                errs.append((None, "a worker did not answer in time"))
                break
            for i, c, s, b, smp, sk, err in res:
                done += 1
                counts.update(c)
                skips.update(sk)
                sigs |= s
                bads += [(i, m, d) for m, d in b]
                if len(samples) < 3:
                    samples += smp
                if err:
                    errs.append((i, err))
                if c and not sk:
                    decided += 1
            if len(bads) > 60 or len(errs) > 200:
                break
    finally:
        pool.terminate()
        pool.join()
    kf = [f for f in known()["findings"] if f["property"] == pid]
    fresh, listed = [], collections.Counter()
    for i, m, d in bads:
        if any(f["mechanism"] == m for f in kf):
            listed[m] += 1
        else:
            fresh.append((i, m, d))
    for f in kf:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, f["what"], listed[f["mechanism"]]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(counts.values()), "distinct_nontrivial": len(sigs), "rule": mod.RULE,
            "samples": samples or ["(none)"], "cases": done, "cases_planned": count, "cases_deciding": decided,
            "observed": dict(sorted(counts.items())), "skipped": dict(skips), "harness_errors": len(errs),
            "known_findings_seen": dict(listed),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d of %d cases (%d deciding), %d observations, %d distinct; %.1fs"
          % (pid, tier, seed, done, count, decided, sum(counts.values()), len(sigs), time.time() - t0))
    print("  observed: %s" % dict(sorted(counts.items())))
    if skips:
        print("  skipped: %s" % dict(skips))
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        i, m, d = fresh[0]
        path = os.path.join(rdir, "%s.json" % pid)
        json.dump({"property": pid, "tier": tier, "seed": seed, "case": i, "mechanism": m, "detail": d}, open(path, "w"), indent=1)
        seenm = set()
        for i, m, d in fresh:
            if m in seenm:
                continue
            seenm.add(m)
            print("  violation in case %s [%s] %s" % (i, m, d[:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        for i, e in errs[:3]:
            print("  harness error in case %s: %s" % (i, e[-900:]))
    if done and len(errs) > 0.02 * done:
        print("INCONCLUSIVE: %d of %d cases could not be run" % (len(errs), done))
        return 2
    need = getattr(mod, "NEED", [])
    missing = [k for k in need if not counts.get(k)]
    if not decided or missing or decided < 0.5 * done:
        print("INCONCLUSIVE: nothing decisive was observed (%s)" % (missing or decided))
        return 2
    return 0
