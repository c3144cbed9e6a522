"""Runs the generated checks of one property against /repo's working tree.

usage: check <ID> [quick|thorough] [--replay FILE]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
anything else: the machinery failed (no verdict).
"""
import argparse
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STOQ_REPO", "/repo")
# Cases take seconds at most. One that burns CPU for CASE_CPU seconds never
# ends (a violation: every call is to return); one that merely does not
# progress for CASE_SECONDS is inconclusive (error exit, no verdict).
CASE_CPU = 100
CASE_SECONDS = 800
# multiples of the listed case counts that quick and thorough run
SCALE = dict.fromkeys(["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08",
                       "P09", "P10", "P14", "P17"], (6, 80))
SCALE.update(P20=(2, 15), P18=(4, 50), P19=(4, 50))
SCALE_OTHER = (2.5, 30)


class Hang(BaseException):
    """Not an Exception, so that neither code under test nor the case
    generator holds it back."""


def load_repo():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import stoqcompiler
    here = os.path.realpath(stoqcompiler.__file__)
    assert here.startswith(os.path.realpath(REPO) + os.sep), here


def from_repo(exc):
    """Whether the exception was raised inside the code under test."""
    tb = exc.__traceback__
    root = os.path.realpath(os.path.join(REPO, "stoqcompiler")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def execute(sub, spec, rec):
    """One case. Raises Violation iff the property is broken on it."""
    from .core import Violation, HarnessError, muted
    from hypothesis.errors import HypothesisException
    import numpy as np
    import random
    np.random.seed(12345)
    random.seed(12345)
    try:
        with muted():
            sub.fn(spec, rec)
    except (Violation, HarnessError, HypothesisException):
        raise
    except TimeoutError:
        raise
    except RecursionError as e:
        raise Violation("RecursionError: %s" % e) from e
    except Exception as e:
        if from_repo(e):
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                "well-formed use raised %s: %s (%s line %s)" % (
                    type(e).__name__, str(e)[:200],
                    os.path.basename(where.filename), where.lineno)) from e
        if isinstance(e, (MemoryError, OSError, ImportError)):
            raise HarnessError("%s: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc())) from e
        # the oracles digest every result of the correct code, so a result
        # they cannot digest (wrong type, shape or text) is a wrong result
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(
            "the oracle cannot digest the result: %s: %s (%s line %s)" % (
                type(e).__name__, str(e)[:200],
                os.path.basename(where.filename), where.lineno)) from e


def _alarm(signum, frame):
    raise TimeoutError("case exceeded %d s" % CASE_SECONDS)


def _prof(signum, frame):
    raise Hang("did not return within %d s of CPU time" % CASE_CPU)


def run_shard(args):
    prop, tier, seed, shard, nshards, only, scale = args
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = tempfile.mkdtemp(
        prefix="hyp-", dir=os.environ.get("VERIF_SCRATCH"))
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45
    from .core import Violation, Rec, key
    mod = importlib.import_module("pbt.props." + prop.lower())
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _prof)
    out = dict(evaluations=0, keys=set(), samples=[], labels={}, subs={},
               violation=None, error=None)
    try:
        for si, sub in enumerate(mod.SUBS):
            if only and sub.name not in only:
                continue
            q, t = SCALE.get(prop, SCALE_OTHER)
            total = max(1, int(sub.quick * scale * (
                q if tier == "quick" else t)))
            # at least six cases together: the first of each is minimal
            m = min(nshards, max(1, total // 6))
            mine = (shard - si) % nshards
            if mine >= m:
                continue
            n = total // m + (1 if mine < total % m else 0)
            last = []
            st = out["subs"].setdefault(sub.name, [0, 0])

            def body(spec):
                rec = Rec()
                out["evaluations"] += 1
                st[0] += 1
                signal.alarm(CASE_SECONDS)
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU, 1)
                try:
                    execute(sub, spec, rec)
                except (Violation, Hang) as v:
                    last[:] = [spec, str(v)]
                    raise
                finally:
                    signal.alarm(0)
                    signal.setitimer(signal.ITIMER_PROF, 0)
                for lb in rec.labels:
                    lb = sub.name + ":" + str(lb)
                    out["labels"][lb] = out["labels"].get(lb, 0) + 1
                if rec.nontrivial:
                    k = key(sub.name, spec)
                    if k not in out["keys"]:
                        out["keys"].add(k)
                        st[1] += 1
                        if len([s for s in out["samples"]
                                if s["check"] == sub.name]) < 1:
                            out["samples"].append(
                                dict(check=sub.name, case=spec))

            test = settings(
                max_examples=n, database=None, deadline=None,
                derandomize=False, print_blob=False,
                verbosity=Verbosity.quiet,
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                suppress_health_check=[
                    HealthCheck.too_slow, HealthCheck.data_too_large,
                    HealthCheck.large_base_example])(
                given(sub.strategy)(body))
            test = hypothesis.seed(seed * 1009 + shard * 31 + si)(test)
            try:
                test()
            except (Violation, Hang) as v:
                out["violation"] = (sub.name, last[0], str(v))
                break
            except hypothesis.errors.Flaky:
                if not last:
                    raise
                out["violation"] = (sub.name, last[0],
                                    last[1] + " (not deterministic)")
                break
    except BaseException as e:
        out["error"] = "%s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc())
    finally:
        shutil.rmtree(os.environ["HYPOTHESIS_STORAGE_DIRECTORY"],
                      ignore_errors=True)
    return out


def findings(prop):
    """Known (unrepaired) findings of this property: list of dicts."""
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    res.append(line.strip())
    return res


def corpus(prop):
    path = os.path.join(VERIF, "corpus", prop + ".jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def replay_case(mod, case):
    from .core import Rec, Violation
    subs = {s.name: s for s in mod.SUBS}
    rec = Rec()
    signal.signal(signal.SIGPROF, _prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU, 1)
    try:
        execute(subs[case["check"]], case["case"], rec)
    except Hang as e:
        raise Violation(str(e)) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return rec


def report(prop, sub, spec, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.%s.json" % (prop, sub))
    with open(path, "w") as f:
        json.dump(dict(property=prop, check=sub, case=spec, message=msg,
                       rerun="./check %s --replay %s" % (prop, path)),
                  f, indent=1, ensure_ascii=False)
    print("  %s: %s" % (sub, msg))
    print("  case: %s" % json.dumps(spec, ensure_ascii=False)[:1500])
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?",
                    default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    load_repo()
    from .core import Violation, key
    mod = importlib.import_module("pbt.props." + a.prop.lower())

    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)
        try:
            replay_case(mod, case)
        except Violation as v:
            print("  %s" % v)
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("held on", a.replay)
        return 0

    for line in findings(a.prop):
        witness = getattr(mod, "KNOWN", {}).get(line.split("id=")[1].split()[0])
        if witness is not None and witness():
            print("KNOWN-FINDING: " + line[len("known: "):])

    jobs = a.jobs or 8
    violations = []
    tot = dict(evaluations=0, keys=set(), samples=[], labels={}, subs={})
    # replay tier: saved minimal cases, no library involved
    saved = [] if a.only else corpus(a.prop)
    for c in saved:
        tot["evaluations"] += 1
        try:
            rec = replay_case(mod, c)
            if rec.nontrivial:
                tot["keys"].add(key(c["check"], c["case"]))
        except Violation as v:
            violations.append((c["check"], c["case"], str(v)))
            break
    if not violations:
        scratch = tempfile.mkdtemp(prefix="pbt-")
        os.environ["VERIF_SCRATCH"] = scratch
        try:
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(jobs) as pool:
                outs = pool.map(run_shard, [
                    (a.prop, a.tier, seed, i, jobs, a.only, a.scale)
                    for i in range(jobs)], chunksize=1)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        errors = []
        for o in outs:
            tot["evaluations"] += o["evaluations"]
            tot["keys"] |= o["keys"]
            for s in o["samples"]:
                if len([t for t in tot["samples"]
                        if t["check"] == s["check"]]) < 2:
                    tot["samples"].append(s)
            for k, v in o["labels"].items():
                tot["labels"][k] = tot["labels"].get(k, 0) + v
            for k, v in o["subs"].items():
                t = tot["subs"].setdefault(k, [0, 0])
                t[0] += v[0]
                t[1] += v[1]
            if o["violation"]:
                violations.append(o["violation"])
            if o["error"]:
                errors.append(o["error"])
        if errors and not violations:
            sys.stderr.write("HARNESS ERROR (no verdict):\n" + errors[0])
            return 3

    def clip(s):
        t = json.dumps(s, ensure_ascii=False)
        return s if len(t) < 1500 else dict(
            check=s["check"], case_text=t[:1400] + "...")

    evidence = dict(
        property=a.prop, tier=a.tier if a.tier in ("quick", "thorough")
        else "quick", seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["evaluations"],
            distinct_nontrivial=len(tot["keys"]),
            rule=mod.RULE,
            samples=[clip(s) for s in tot["samples"]],
            per_check={k: dict(evaluations=v[0], distinct_nontrivial=v[1])
                       for k, v in sorted(tot["subs"].items())},
            classes=dict(sorted(tot["labels"].items())),
            replayed_saved_cases=len(saved),
            workers=jobs),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "numpy/scipy linear algebra in double precision is trusted; "
            "oracles are separate numpy code in /verif/pbt/oracle.py"],
        wall_s=round(time.time() - start, 2),
        violations=len(violations))
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"),
                  "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write("\n")
    if violations:
        seen = set()
        for v in violations:
            if v[0] not in seen:
                seen.add(v[0])
                report(a.prop, *v)
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
        a.prop, tot["evaluations"], len(tot["keys"]), time.time() - start))
    if os.environ.get("PBT_VERBOSE"):
        for k, v in evidence["coverage"]["per_check"].items():
            print("   ", k, v)
        for k, v in evidence["coverage"]["classes"].items():
            print("       ", k, v)
    return 0


if __name__ == "__main__":
    sys.exit(main())
