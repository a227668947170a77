import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from collections import Counter

from vlib.case import BUDGET, Discard, Known, Rec, Violation, VERIF, case_key, run_case, short

DEFAULT_STEPS = 20_000_000
# for tools that only need to know if there is a violation
FIRST_ONLY = bool(os.environ.get("VERIF_FIRST"))
MAX_SHRINK_SECONDS = 1 if FIRST_ONLY else 30


class ShrunkEnough(BaseException):
    """Raised inside hypothesis when shrinking has taken its time (slow failing cases)"""


HARD_LIMIT = {"quick": 780, "thorough": 6 * 3600}


class Part:
    """One generated check: a strategy for cases, and the function that decides a case."""
    def __init__(self, name, strategy, check, quick, thorough, shards=None, steps=DEFAULT_STEPS, doc=""):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.shards, self.steps, self.doc = quick, thorough, shards, steps, doc


def load(prop):
    return importlib.import_module("props." + prop.lower())


def known_findings(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        entries = json.load(f)["findings"]
    return {e["key"]: e for e in entries if e["property"] == prop and e["status"] == "open"}


def run_task(args):
    """One shard of one part, in its own process."""
    number, (prop, part_name, seed, cases) = args
    try:
        return dict(_run_task(prop, part_name, seed, cases), task=number)
    except BaseException:
        return dict(part=part_name, error=traceback.format_exc(), task=number)


def _run_task(prop, part_name, seed, cases):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = MAX_SHRINK_SECONDS

    module = load(prop)
    part = next(p for p in module.PARTS if p.name == part_name)
    known = known_findings(prop)

    out = dict(part=part_name, evaluations=0, keys=set(), labels=Counter(), samples=[], violation=None,
               discarded=0, known={}, error=None)
    state = dict(failed=None, message=None, since=None)

    def one(case):
        if state["since"] and time.monotonic() - state["since"] > MAX_SHRINK_SECONDS:
            raise ShrunkEnough
        try:
            judge(case)
        except Violation:
            state["since"] = state["since"] or time.monotonic()
            raise

    def judge(case):
        rec = Rec()
        try:
            run_case(part.check, case, rec, part.steps)
        except Discard:
            if state["failed"] is None:
                out["discarded"] += 1
            return
        except Known as k:
            key = str(k)
            if key not in known:
                state["failed"], state["message"] = case, f"unlisted finding {key}"
                raise Violation(state["message"]) from None
            if state["failed"] is None:
                out["evaluations"] += 1
                out["known"][key] = out["known"].get(key, 0) + 1
            return
        except Violation as v:
            state["failed"], state["message"] = case, str(v)
            raise
        if state["failed"] is None:
            out["evaluations"] += 1
            out["labels"].update(set(rec.labels))
            if rec.nontrivial:
                key = case_key(case)
                if key not in out["keys"]:
                    out["keys"].add(key)
                    n = len(out["keys"])
                    # samples from the whole run, not only the first (small) ones
                    if n in (1, 10, 50, 200, 1000, 5000):
                        out["samples"].append(dict(part=part_name, labels=sorted(set(rec.labels)), case=short(case, 1200)))

    @hypothesis.seed(seed)
    @settings(max_examples=cases, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)
    @given(part.strategy())
    def test(case):
        one(case)

    try:
        with open(os.devnull, "w") as null:
            test()
    except (Violation, ShrunkEnough):
        pass
    except BaseException as e:
        if state["failed"] is None:
            raise
        # hypothesis could not reproduce a failure that was seen (state that leaks between cases): still a failure
        state["message"] = (state["message"] or "") + "\n(not reproduced in isolation: " + type(e).__name__ + ")"

    if state["failed"] is not None:
        out["violation"] = dict(case=state["failed"], message=state["message"])
    return out


def plan(module, prop, tier, seed, only=None, cases=None):
    tasks = []
    for part in module.PARTS:
        if only and part.name != only:
            continue
        total = cases or (part.quick if tier == "quick" else part.thorough)
        shards = part.shards or (8 if tier == "quick" else 16)
        shards = max(1, min(shards, total // 20 or 1))
        for shard in range(shards):
            n = total // shards + (1 if shard < total % shards else 0)
            if n:
                tasks.append((prop, part.name, seed * 1000003 + 7919 * shard + 17, n))
    return tasks


def write_json(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(value, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(tmp, path)


def replay(prop, path):
    import ast
    with open(path) as f:
        data = json.load(f)
    module = load(prop)
    part = next(p for p in module.PARTS if p.name == data["part"])
    case = ast.literal_eval(data["case"])
    try:
        run_case(part.check, case, Rec(), part.steps)
    except Violation as v:
        print(str(v))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except (Discard, Known) as e:
        print("not a violation:", type(e).__name__, e)
        return 0
    print("replay: property holds on this case")
    return 0


def cli(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--part")
    parser.add_argument("--cases", type=int)
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    opts = parser.parse_args(argv)
    prop = opts.property.upper()
    if opts.replay:
        return replay(prop, opts.replay)

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()

    def too_late(*_):
        print(f"ERROR: {prop} gave no answer within its time limit", flush=True)
        os.killpg(os.getpgid(0), signal.SIGKILL) if os.getpgid(0) == os.getpid() else None
        os._exit(2)
    signal.signal(signal.SIGALRM, too_late)
    signal.alarm(HARD_LIMIT[tier])

    evidence_path = os.path.join(VERIF, "evidence", prop + ".json")
    try:
        module = load(prop)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print(f"ERROR: {prop}: the check could not be loaded")
        return 2

    tasks = plan(module, prop, tier, seed, opts.part, opts.cases)
    # one process per task: state that leaks inside the code under test cannot cross tasks
    context = multiprocessing.get_context("fork")
    with context.Pool(min(opts.jobs, max(1, len(tasks))), maxtasksperchild=1) as pool:
        results = []
        for result in pool.imap_unordered(run_task, list(enumerate(tasks)), chunksize=1):
            results.append(result)
            if result.get("violation") and FIRST_ONLY:
                break

    results.sort(key=lambda r: r.get("task", 0))
    errors = [r for r in results if r.get("error")]
    good = [r for r in results if not r.get("error")]
    violations = [r for r in good if r["violation"]]

    evaluations = sum(r["evaluations"] for r in good)
    keys, labels, samples, parts, known = set(), Counter(), [], {}, Counter()
    for r in good:
        keys |= {(r["part"], k) for k in r["keys"]}
        labels.update({f"{r['part']}: {k}": v for k, v in r["labels"].items()})
        known.update(r["known"])
        p = parts.setdefault(r["part"], dict(evaluations=0, discarded=0, distinct_nontrivial=0))
        p["evaluations"] += r["evaluations"]
        p["discarded"] += r["discarded"]
    for name in parts:
        parts[name]["distinct_nontrivial"] = sum(1 for k in keys if k[0] == name)
        picked = [s for r in good if r["part"] == name for s in r["samples"]]
        # spread the samples kept over early and late cases of the part
        samples.extend(picked[i] for i in sorted({0, len(picked) // 2, len(picked) - 1}) if picked)

    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(keys), rule=module.RULE, samples=samples[:24],
                      parts=parts, labels=dict(sorted(labels.items())), shards=len(tasks),
                      known_findings_hit=dict(known)),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - start, 2), violations=len(violations))
    write_json(evidence_path, evidence)

    for key, entry in sorted(known_findings(prop).items()):
        print(f"KNOWN-FINDING: property={prop} {entry['what']}")

    if violations:
        first = violations[0]
        path = os.path.join(VERIF, "replays", f"{prop}-{first['part']}-{case_key(first['violation']['case'])}.json")
        write_json(path, dict(property=prop, part=first["part"], case=repr(first["violation"]["case"]),
                              message=first["violation"]["message"], seed=seed, tier=tier))
        print(f"part {first['part']}: {first['violation']['message']}")
        print("minimal case:", short(first["violation"]["case"], 3000))
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if errors:
        print(errors[0]["error"])
        print(f"ERROR: {prop}: the check failed ({len(errors)} of {len(tasks)} tasks)")
        return 2
    if evaluations == 0 or not keys:
        print(f"ERROR: {prop}: nothing was explored")
        return 2
    print(f"OK {prop} {tier} seed={seed}: {evaluations} cases, {len(keys)} distinct non-trivial, {evidence['wall_s']} s")
    return 0
