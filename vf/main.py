"""run.sh <PROPERTY> [--replay FILE] [--sub NAME] [-v]"""
import argparse
import base64
import contextlib
import ctypes
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from vf import core, deps


def prepare():
    deps.ensure()
    sys.dont_write_bytecode = True
    core.clean_bytecode()
    fakes = os.path.join(core.VERIF, "vf", "fakes")
    sys.path[:0] = [core.REPO, fakes]
    if "MPLCONFIGDIR" not in os.environ:
        shared = "/opt/venv/mplconfig"
        os.environ["MPLCONFIGDIR"] = (
            shared if os.path.isdir(shared) else tempfile.mkdtemp())
    import warnings
    warnings.simplefilter("ignore")


def load(prop):
    """Import the check; a package that cannot be imported is a violation."""
    with core.silence():
        try:
            module = importlib.import_module(f"vf.checks.{prop.lower()}")
        except (Exception, SystemExit) as e:
            if core.in_repo(e):
                raise core.Violation(
                    f"importing the package raised {type(e).__name__}: {e}"
                ) from e
            raise
    return module


def report_violation(prop, failure, seed, tier):
    path = core.write_replay(prop, failure, seed, tier)
    print(f"[{prop}/{failure['sub']}] {failure['message'][:1500]}")
    print(f"  case: {core.short(failure['case'], 1500)}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def write_evidence(prop, tier, seed, stats, wall, violations, assumptions):
    subs = {}
    samples = []
    rules = []
    for name, s in stats.items():
        subs[name] = dict(
            cases=s["evaluations"], nontrivial=len(s["hashes"]),
            inconclusive=s["inconclusive"], classes=s["labels"],
            stopped_early=bool(s.get("stopped_early")),
        )
        samples += [dict(check=name, case=c) for c in s["samples"][:2]]
        rules.append(f"{name}: {s['rule']}")
    data = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(s["evaluations"] for s in stats.values()),
            distinct_nontrivial=sum(len(s["hashes"]) for s in stats.values()),
            rule="Hypothesis-generated cases, distinct by the hash of the "
                 "case; non-trivial when: " + "; ".join(rules),
            samples=samples, checks=subs,
        ),
        wall_s=round(wall, 2), violations=violations,
        assumptions=assumptions,
    )
    folder = os.path.join(core.VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    tmp = os.path.join(folder, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, default=str)
    os.replace(tmp, os.path.join(folder, f"{prop}.json"))


# Deaths that the code under test can bring about
CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL,
           signal.SIGABRT}
HANG = 2 * core.CASE_LIMIT + 60


def end_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def guard(argv, capture, limit, group=False):
    """
    Run the exploration in a process of its own, or in a group of its own of
    which nothing is left running.  Gives its exit code and output, and the
    case that it died or hung in.
    """
    fd, progress = tempfile.mkstemp(prefix="vf-case-")
    os.close(fd)
    out = tempfile.TemporaryFile() if capture else None
    begin = time.time()
    died = None
    try:
        proc = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "vf.main", *argv],
            cwd=core.VERIF, env=dict(os.environ, VF_PROGRESS=progress),
            stdout=out, stderr=subprocess.STDOUT if capture else None,
            start_new_session=group, preexec_fn=end_with_parent)
        while True:
            try:
                code = proc.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            hung = os.path.getsize(progress) and \
                now - os.path.getmtime(progress) > HANG
            if hung or now - begin > limit:
                proc.kill()
                code = proc.wait()
                if hung:
                    died = f"not finished after {HANG} s"
                else:
                    code = 0
                break
        if code < 0 and -code in CRASHES:
            died = f"the process died of {signal.Signals(-code).name}"
        case = core.in_progress(progress)
        text = ""
        if out is not None:
            out.seek(0)
            text = out.read().decode(errors="replace")
        if died and case:
            return code, text, dict(sub=case[0], case=case[1], message=died,
                                    trace=text[-2000:])
        return code, text, None
    finally:
        if group:
            with contextlib.suppress(OSError):
                os.killpg(proc.pid, signal.SIGKILL)
        os.unlink(progress)


def supervise(prop, argv, tier, seed):
    start = time.time()
    code, _, failure = guard(argv, False, core.HARD_LIMIT + 10,
                             group=True)
    if failure is None:
        return code if code >= 0 else 2
    write_evidence(prop, tier, seed, {}, time.time() - start, 1, [])
    report_violation(prop, failure, seed, tier)
    return 1


def shard_main(args, tier, seed):
    """Run one shard of a thorough run, and hand the result to the parent"""
    module = load(args.property)
    runner = core.Runner(args.property, module.SUBS, tier, seed,
                         shard=args.shard)
    runner.run()
    with open(args.shard_out, "wb") as f:
        pickle.dump(dict(stats=runner.stats, failures=runner.failures,
                         errors=runner.harness_errors,
                         known=runner.known_hit), f)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--sub")
    parser.add_argument("-v", action="store_true")
    parser.add_argument("--shard", type=int)
    parser.add_argument("--shard-out")
    args = parser.parse_args()
    prop = args.property
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in core.LIMITS:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    prepare()

    if core.PROGRESS is None:
        return supervise(prop, sys.argv[1:], tier, seed)

    if args.shard is not None:
        return shard_main(args, tier, seed)

    try:
        module = load(prop)
    except core.Violation as e:
        failure = dict(sub="import", case="import", message=str(e),
                       trace=traceback.format_exc())
        write_evidence(prop, tier, seed, {}, time.time() - start, 1, [])
        report_violation(prop, failure, seed, tier)
        return 1

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        sub, = [s for s in module.SUBS if s.name == data["sub"]]
        case = pickle.loads(base64.b64decode(data["case_pickle"]))
        runner = core.Runner(prop, [sub], tier, seed)
        if sub.setup is not None:
            sub.setup()
        try:
            runner.execute(sub, case)
        except core.Violation as e:
            traceback.print_exc()
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("the replayed case passes")
        return 0

    subs = [s for s in module.SUBS if not args.sub or s.name == args.sub]
    assumptions = list(getattr(module, "ASSUMPTIONS", []))
    runner = core.Runner(prop, subs, tier, seed, verbose=args.v)

    def give_up():
        write_evidence(prop, tier, seed, runner.stats, time.time() - start,
                       0, assumptions + ["the run was cut short"])
        sys.__stdout__.write(f"{prop}: inconclusive, out of time\n")

    core.watchdog(core.HARD_LIMIT, give_up)

    if tier == "thorough" and not args.sub:
        run_sharded(runner, prop, tier, seed)
    else:
        runner.run()

    wall = time.time() - start
    if runner.harness_errors and not runner.failures:
        print(f"HARNESS ERROR in {prop}")
        for e in runner.harness_errors:
            print(e)
        return 2
    write_evidence(prop, tier, seed, runner.stats, wall,
                   len(runner.failures), assumptions)
    for key, what in runner.known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {key} {runner.known[key]}")
    for failure in runner.failures:
        report_violation(prop, failure, seed, tier)
    total = sum(s["evaluations"] for s in runner.stats.values())
    good = sum(len(s["hashes"]) for s in runner.stats.values())
    print(f"{prop}: {total} cases, {good} non-trivial, "
          f"{len(runner.failures)} violation(s), {wall:.1f} s")
    return 1 if runner.failures else 0


def run_sharded(runner, prop, tier, seed, n_shards=6):
    """Explore with differently seeded processes in parallel"""
    folder = tempfile.mkdtemp(prefix="vf-shards-")
    outs = [os.path.join(folder, f"{i}.pkl") for i in range(n_shards)]
    with ThreadPoolExecutor(n_shards) as pool:
        results = list(pool.map(lambda i: guard(
            [prop, "--shard", str(i), "--shard-out", outs[i]], True,
            core.HARD_LIMIT - 15), range(n_shards)))
    for out, (code, text, failure) in zip(outs, results):
        if failure is not None:
            runner.failures.append(failure)
            continue
        if not os.path.exists(out):
            if code != 0:
                runner.harness_errors.append(f"shard failed: {text[-3000:]}")
            continue
        with open(out, "rb") as f:
            res = pickle.load(f)
        runner.harness_errors += res["errors"]
        runner.known_hit.update(res["known"])
        seen = {f["sub"] for f in runner.failures}
        runner.failures += [f for f in res["failures"]
                            if f["sub"] not in seen]
        for name, s in res["stats"].items():
            t = runner.stats.setdefault(name, dict(
                evaluations=0, hashes=set(), samples=[], labels={},
                inconclusive=0, rule=s["rule"]))
            t["evaluations"] += s["evaluations"]
            t["hashes"] |= s["hashes"]
            t["samples"] = (t["samples"] + s["samples"])[:3]
            t["inconclusive"] += s["inconclusive"]
            t["stopped_early"] = t.get("stopped_early") or \
                s.get("stopped_early", False)
            for k, v in s["labels"].items():
                t["labels"][k] = t["labels"].get(k, 0) + v
    import shutil
    shutil.rmtree(folder, ignore_errors=True)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code or 0)
