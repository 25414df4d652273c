"""Runner shared by all checks: generation, shrinking, replay files, evidence.

A check module defines

* ``CLAUSES``: a list of :class:`Clause`;
* ``ASSUMPTIONS``: list of strings.

A clause has a Hypothesis strategy producing a JSON-serialisable *case* and a function
``fn(case, note)`` that decides the clause for that case.  It raises :class:`Violation`
when the property is broken.  It calls ``note(label)`` to classify the case, and
``note.trivial()`` when the case exercised nothing.
"""

from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    """The property is broken on this case."""


class CodeUnderTestError(Violation):
    """The code under test raised on a valid input."""


def setup():
    """Make halomod importable from the working tree, and hypothesis importable at all."""
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if HYP not in sys.path:
            sys.path.append(HYP)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    from colossus import settings as cs

    # several processes must not share colossus' cache files
    cs.PERSISTENCE = ""
    from colossus.utils import storage

    try:
        storage.getCacheDir("cosmology")
    except OSError:
        pass
    import halomod

    f = os.path.realpath(halomod.__file__)
    if not f.startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"halomod was imported from {f}, not from {REPO}")
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 45


class Clause:
    def __init__(self, name, strategy, fn, quick=100, thorough=None, shards=1, rule="", what=""):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.rule = rule
        self.what = what


class Note:
    def __init__(self):
        self.labels = []
        self.is_trivial = False
        self.known = []

    def __call__(self, label):
        self.labels.append(str(label))

    def trivial(self, label="trivial"):
        self.is_trivial = True
        self.labels.append(label)

    def known_finding(self, key):
        """The case hits a finding listed in known_findings.json."""
        self.known.append(key)


def known_findings(pid):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        items = json.load(f)["findings"]
    return {i["key"]: i for i in items if i["property"] == pid and i["status"] == "known"}


def _canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    return repr(o)


def _in_halomod(tb):
    pk = os.path.realpath(os.path.join(REPO, "src", "halomod"))
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(pk):
            return True
        tb = tb.tb_next
    return False


def execute(clause, case, note):
    """Run one case; every failure becomes a Violation, harness errors propagate."""
    import hypothesis.errors as he

    try:
        clause.fn(case, note)
    except Violation:
        raise
    except he.HypothesisException:
        raise
    except Exception as e:
        if _in_halomod(e.__traceback__):
            fr = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(x.filename)}:{x.lineno}" for x in fr][-6:]
            raise CodeUnderTestError(
                f"unexpected {type(e).__name__}: {str(e)[:300]} at {' > '.join(where)}"
            ) from e
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError)):
            # the result of the code under test has the wrong kind or size for the oracle
            fr = traceback.extract_tb(e.__traceback__)[-1]
            raise CodeUnderTestError(
                f"result unusable: {type(e).__name__}: {str(e)[:300]} at {os.path.basename(fr.filename)}:{fr.lineno}"
            ) from e
        raise


def run_clause(args):
    """Run one shard of a clause. Returns a result dictionary."""
    pid, clause_idx, shard, nshards, n_examples, seed, deadline = args
    import importlib

    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    mod = importlib.import_module(f"checks.{pid.lower()}")
    clause = mod.CLAUSES[clause_idx]
    res = dict(
        clause=clause.name, shard=shard, evaluations=0, skipped=0, hashes=set(), labels={},
        samples=[], known={}, violation=None, error=None, trivial=0,
    )
    t0 = time.time()
    known = known_findings(pid)
    last = {}

    class _HarnessError(Exception):
        pass

    def body(case):
        if time.time() > deadline and res["violation"] is None and not last:
            res["skipped"] += 1
            return
        note = Note()
        res["evaluations"] += 1
        try:
            execute(clause, case, note)
        except Violation as e:
            last["case"], last["msg"] = case, str(e)
            raise
        for k in note.known:
            if k not in known:
                last["case"], last["msg"] = case, f"unlisted finding {k}"
                raise Violation(f"unlisted finding {k}")
            res["known"][k] = res["known"].get(k, 0) + 1
        for lab in note.labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if note.is_trivial:
            res["trivial"] += 1
        else:
            c = _canon(case)
            h = hashlib.sha1(c.encode()).hexdigest()[:16]
            if h not in res["hashes"]:
                res["hashes"].add(h)
                if len(res["samples"]) < 2 and res["evaluations"] > 2:
                    res["samples"].append(json.loads(c))

    strategy = clause.strategy() if callable(clause.strategy) else clause.strategy
    test = hypothesis.given(strategy)(body)
    test = settings(
        max_examples=n_examples, database=None, deadline=None, derandomize=False,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed * 1000003 + clause_idx * 1009 + shard)(test)
    try:
        test()
    except Violation as e:
        res["violation"] = dict(case=json.loads(_canon(last.get("case"))), msg=last.get("msg", str(e)))
    except hypothesis.errors.Flaky as e:
        if last:
            # the code under test is not deterministic in this case: still a violation
            res["violation"] = dict(
                case=json.loads(_canon(last["case"])), msg="(flaky) " + last["msg"]
            )
        else:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    except BaseException as e:
        if last and isinstance(e, BaseExceptionGroup):
            res["violation"] = dict(case=json.loads(_canon(last["case"])), msg=last["msg"])
        else:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    res["wall"] = time.time() - t0
    return res


def run(pid, mod, tier, opts):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "3600"))
    deadline = t0 + budget
    tasks = []
    for i, c in enumerate(mod.CLAUSES):
        if "clause" in opts and c.name not in opts["clause"].split(","):
            continue
        n = int(opts.get("examples", c.quick if tier == "quick" else c.thorough))
        sh = max(1, min(c.shards, n))
        for s in range(sh):
            tasks.append((pid, i, s, sh, -(-n // sh), seed, deadline))
    results = []
    nproc = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
    if getattr(mod, "PRELOAD", None):
        mod.PRELOAD()
    if nproc <= 1 or len(tasks) == 1:
        results = [run_clause(t) for t in tasks]
    else:
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor
        from concurrent.futures.process import BrokenProcessPool

        ctx = mp.get_context("fork")
        try:
            with ProcessPoolExecutor(min(nproc, len(tasks)), mp_context=ctx) as ex:
                results = list(ex.map(run_clause, tasks))
        except BrokenProcessPool:
            print("harness error: a worker process died")
            return 3
    return report(pid, mod, tier, seed, results, time.time() - t0)


def report(pid, mod, tier, seed, results, wall):
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    per = {}
    viol, errs, known = [], [], {}
    for r in results:
        p = per.setdefault(
            r["clause"],
            dict(evaluations=0, skipped=0, trivial=0, hashes=set(), labels={}, samples=[], cpu_s=0.0),
        )
        p["evaluations"] += r["evaluations"]
        p["skipped"] += r["skipped"]
        p["trivial"] += r["trivial"]
        p["hashes"] |= r["hashes"]
        p["cpu_s"] += r["wall"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        if len(p["samples"]) < 2:
            p["samples"] += r["samples"][:1]
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        if r["error"]:
            errs.append((r["clause"], r["error"]))
        elif r["violation"]:
            viol.append((r["clause"], r["violation"]))
    listed = known_findings(pid)
    clauses = {c.name: c for c in mod.CLAUSES}
    seen = set()
    shown = []
    for name, v in viol:
        if name in seen:
            continue
        seen.add(name)
        path = os.path.join(ev_dir, "replays", f"{pid}-{name}-seed{seed}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, clause=name, case=v["case"], message=v["msg"]), f, indent=1)
        shown.append((name, v, path))
    cov = dict(
        evaluations=sum(p["evaluations"] for p in per.values()),
        distinct_nontrivial=sum(len(p["hashes"]) for p in per.values()),
        rule="; ".join(f"{c.name}: {c.rule or c.what}" for c in mod.CLAUSES),
        samples=[dict(clause=k, case=s) for k, p in per.items() for s in p["samples"][:2]],
        clauses={
            k: dict(
                evaluations=p["evaluations"], distinct_nontrivial=len(p["hashes"]),
                trivial=p["trivial"], not_run_for_lack_of_time=p["skipped"],
                cpu_s=round(p["cpu_s"], 1), classes=dict(sorted(p["labels"].items())),
                decides=clauses[k].what,
            )
            for k, p in per.items()
        },
        known_findings_hit=known,
    )
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
        wall_s=round(wall, 2), violations=len(shown), assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
    )
    with open(os.path.join(ev_dir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    for k, p in per.items():
        print(
            f"{pid} {k}: {p['evaluations']} cases, {len(p['hashes'])} distinct non-trivial, "
            f"{p['skipped']} not run, {p['cpu_s']:.1f} cpu-s"
            + (f"  {dict(sorted(p['labels'].items()))}" if os.environ.get("VERIF_VERBOSE") else "")
        )
    for k, item in listed.items():
        if known.get(k):
            print(f"KNOWN-FINDING: property={pid} {item['what']}")
    for name, v, path in shown:
        print(f"  {name}: {v['msg'][:1500]}")
        print(f"  case: {_canon(v['case'])[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    if shown:
        return 1
    for name, e in errs:
        print(f"HARNESS ERROR in clause {name}:\n{e}")
    if errs:
        return 2
    print(f"{pid}: held on everything explored ({wall:.1f}s)")
    return 0


def replay(pid, mod, path):
    with open(path) as f:
        d = json.load(f)
    cl = {c.name: c for c in mod.CLAUSES}[d["clause"]]
    note = Note()
    try:
        execute(cl, d["case"], note)
    except Violation as e:
        print(f"  {cl.name}: {e}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay passes")
    return 0
