"""Sharded property runner.

A check module defines
    ID, TECHNIQUE, LEVEL_NOTE, RULE
    PARTS : list of Part(name, strategy, run, quick=<cases>, thorough=<cases>)
    FINDINGS (optional) : list of (finding_id, callable) - the callable raises
        Violation while the recorded defect is still there.
run(case, ctx) raises Violation when the property is broken; it may call
ctx.label(...), ctx.nontrivial(), ctx.inconclusive(reason).
"""
import hashlib
import io
import contextlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
from collections import Counter

from . import env


class Violation(Exception):
    pass


class Discard(Exception):
    """inconclusive / out of the domain; counted."""


def check(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg)[:2000])


class Part:
    def __init__(self, name, strategy, run, quick, thorough=None, warm=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12


class Ctx:
    def __init__(self):
        self.labels = Counter()
        self._nt = False

    def begin(self):
        self._nt = False

    def label(self, x):
        self.labels[str(x)] += 1

    def nontrivial(self, yes=True):
        self._nt = self._nt or bool(yes)


def _in_repo(tb):
    """True if the innermost of {harness, repo} frames is a repo frame."""
    last = None
    repo = os.path.join(env.REPO, "inflation") + os.sep
    here = os.path.join(env.VERIF, "") 
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(repo):
            last = "repo"
        elif f.startswith(here):
            last = "verif"
        tb = tb.tb_next
    return last == "repo"


def execute(part, case, ctx):
    """Run one case; returns None or a violation message."""
    ctx.begin()
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            part.run(case, ctx)
    except Violation as e:
        return f"{part.name}: {e}"
    except Discard as e:
        ctx.labels["inconclusive: " + str(e)] += 1
        ctx._nt = False
        return None
    except Exception as e:
        if _in_repo(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-4:]
            return (f"{part.name}: the library raised {type(e).__name__}: "
                    f"{str(e)[:300]} on valid input ({' > '.join(loc)})")
        raise
    return None


def _worker(mod, pi, n, seed, t_end, shrink_s, conn):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    part = mod.PARTS[pi]
    ctx = Ctx()
    st = dict(evals=0, skipped=0, fail=None, err=None)
    nt, samples = set(), []
    fails = {}
    t_fail = [None]

    def body(case):
        key = json.dumps(case, sort_keys=True)
        if t_fail[0] is not None:
            if key in fails:
                raise Violation("again")
            if time.time() > t_fail[0] + shrink_s:
                return
        elif time.time() > t_end:
            st["skipped"] += 1
            return
        st["evals"] += 1
        try:
            msg = execute(part, case, ctx)
        except Exception:
            if st["err"] is None:
                st["err"] = (case, traceback.format_exc())
            raise
        if ctx._nt:
            h = hashlib.sha1(key.encode()).hexdigest()
            if h not in nt:
                nt.add(h)
                if len(samples) < 2:
                    samples.append(case)
        if msg:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            fails[key] = msg
            cur = st["fail"]
            if cur is None or len(key) <= len(json.dumps(cur[0], sort_keys=True)):
                st["fail"] = (case, msg)
            raise Violation(msg)

    test = given(part.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            test()
    except BaseException as e:           # noqa - reported through st
        if st["fail"] is None and st["err"] is None:
            st["err"] = (None, traceback.format_exc())
    st.update(nt=nt, samples=samples, labels=ctx.labels)
    conn.send(st)
    conn.close()


def seed_for(base, *parts):
    h = hashlib.sha256(("|".join(map(str, (base,) + parts))).encode()).digest()
    return int.from_bytes(h[:7], "big")


def load_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid]


def main(mod, argv):
    t0 = time.time()
    pid = mod.ID
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = env.setup()
    os.chdir(scratch)
    if getattr(mod, "SETUP", None):
        with contextlib.redirect_stdout(io.StringIO()):
            mod.SETUP()
        # the library collects garbage often: keep what is loaded out of it
        import gc
        gc.collect()
        gc.freeze()
    if len(argv) >= 2 and argv[0] == "--replay":
        with open(argv[1]) as f:
            rep = json.load(f)
        part = next((p for p in mod.PARTS if p.name == rep["part"]), None)
        if part is None:
            fn = dict(mod.FINDINGS)[rep["part"]]
            part = Part(rep["part"], None, lambda case, ctx: fn(), 1)
        msg = execute(part, rep["case"], Ctx())
        print(msg or "case passes")
        if msg:
            print(f"VIOLATION property={pid} replay={os.path.abspath(argv[1])}")
        return 1 if msg else 0
    scale = float(os.environ.get("PBT_SCALE", "1"))
    only = os.environ.get("PBT_PART")
    nw = int(os.environ.get("PBT_WORKERS", "8"))
    budget = float(os.environ.get("PBT_BUDGET_S", "420" if tier == "quick" else "3000"))
    t_end = t0 + budget
    jobs = []
    for pi, part in enumerate(mod.PARTS):
        if only and only != part.name:
            continue
        n = part.quick if tier == "quick" else part.thorough
        n = max(1, int(n * scale))
        shards = min(nw, max(1, n // 5))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            jobs.append((pi, k, m))
    jobs.sort(key=lambda j: (j[1], j[0]))
    ctxm = mp.get_context("fork")
    running, results = [], {}
    queue = list(jobs)
    per_part = Counter()
    while queue or running:
        while queue and len(running) < nw:
            pi, k, m = queue.pop(0)
            a, b = ctxm.Pipe(duplex=False)
            p = ctxm.Process(target=_worker, args=(
                mod, pi, m, seed_for(seed, pid, mod.PARTS[pi].name, k), t_end,
                40 if tier == "quick" else 120, b))
            p.start()
            b.close()
            running.append((p, a, pi, k))
        ready = mp.connection.wait([r[1] for r in running], timeout=1.0)
        for r in list(running):
            p, a, pi, k = r
            if a in ready:
                try:
                    results[(pi, k)] = a.recv()
                except EOFError:
                    results[(pi, k)] = dict(evals=0, skipped=0, fail=None, nt=set(),
                                            samples=[], labels=Counter(),
                                            err=(None, "worker died"))
                a.close()
                p.join()
                running.remove(r)
        # stop early once a violation is known
        if any(v["fail"] for v in results.values()):
            queue = []
            alive_deadline = time.time() + 5
            if all(True for _ in running):
                for p, a, pi, k in running:
                    p.terminate()
                for p, a, pi, k in running:
                    p.join()
                running = []
    # ---- collect
    labels, evals, skipped = Counter(), 0, 0
    nts, samples = set(), []
    fail, err = None, None
    for (pi, k) in sorted(results):
        st = results[(pi, k)]
        name = mod.PARTS[pi].name
        evals += st["evals"]
        skipped += st["skipped"]
        per_part[name] += st["evals"]
        nts |= {name + h for h in st["nt"]}
        for l, c in st["labels"].items():
            labels[f"{name}/{l}"] += c
        if st["samples"] and sum(s["part"] == name for s in samples) < 2:
            samples.append(dict(part=name, case=st["samples"][0]))
        if st["fail"] and fail is None:
            fail = (name,) + tuple(st["fail"])
        if st["err"] and err is None:
            err = (name,) + tuple(st["err"])
    # ---- known findings
    known = []
    fctx = Ctx()
    listed = {x["id"]: x for x in load_findings(pid)}
    if not only:
        for fid, fn in getattr(mod, "FINDINGS", []):
            p = Part(fid, None, lambda case, ctx, fn=fn: fn(), 1)
            try:
                msg = execute(p, None, fctx)
            except Exception:
                err = err or (fid, None, traceback.format_exc())
                continue
            evals += 1
            if msg is None:
                continue
            if fid in listed and listed[fid]["status"] == "open":
                known.append(fid)
                print(f"KNOWN-FINDING: property={pid} {fid}: {listed[fid]['what']}")
            elif fail is None:
                fail = (fid, None, msg)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=evals, distinct_nontrivial=len(nts),
                  rule=mod.RULE, samples=samples[:8] or [{}],
                  per_part=dict(per_part), labels=dict(sorted(labels.items())),
                  skipped_by_time_budget=skipped,
                  known_findings_still_present=known),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2),
              violations=1 if fail else 0)
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(env.VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if os.environ.get("PBT_VERBOSE"):
        print(json.dumps(ev["coverage"]["labels"], indent=1))
    if fail:
        name, case, msg = fail
        rdir = os.path.join(env.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{name}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, part=name, message=msg, case=case), f, indent=1)
        print("FAILED", msg)
        print("case:", json.dumps(case)[:3000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if err:
        print("HARNESS ERROR in", err[0], json.dumps(err[1], default=str)[:3000])
        print(err[2])
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={evals} "
          f"nontrivial={len(nts)} skipped={skipped} wall={time.time()-t0:.1f}s")
    return 0
