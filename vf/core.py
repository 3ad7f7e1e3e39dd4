"""
Runner: drives each property's sub-checks with Hypothesis, shrinks failures to
a minimal case, stores that case as the replay file and writes the evidence.
"""
import base64
import contextlib
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PACKAGE = os.path.join(REPO, "CHECLabPy")

# Wall-clock limits (seconds) of one run of a check.
LIMITS = dict(quick=(240, 60), thorough=(680, 120))  # (generate, shrink)
HARD_LIMIT = 870
CASE_LIMIT = 100


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    """The check itself failed; says nothing about the code under test."""


# Raised by a check that is given something else than what it must be given
UNEXPECTED = (AttributeError, TypeError, ValueError, LookupError,
              ArithmeticError, AssertionError)


class OutOfTime(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Sub:
    """
    One executable statement of (part of) a property.

    strategy : () -> Hypothesis strategy producing plain-data cases
    check    : (ctx, case) -> None, raises Violation
    quick, thorough : number of generated cases
    """

    def __init__(self, name, strategy, check, quick=100, thorough=None,
                 rule="", setup=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.rule = rule
        self.setup = setup


# While a case runs it is kept in this file, for when the process dies.
PROGRESS = os.environ.get("VF_PROGRESS")


def remember(sub, case):
    if PROGRESS:
        with open(PROGRESS, "wb") as f:
            pickle.dump((sub.name, case), f, protocol=4)


def in_progress(path):
    """The case that ran last, or None"""
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except Exception:
        return None


class Ctx:
    """Handed to each check; collects what the case was about."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self._tmp = None
        self.cleanups = []

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vf-")
            # a plain folder name: output paths are derived from input paths
            while "_" in os.path.basename(self._tmp):
                os.rmdir(self._tmp)
                self._tmp = tempfile.mkdtemp(prefix="vf-")
        return self._tmp

    def path(self, *names):
        return os.path.join(self.tmp, *names)

    def note(self, label, nontrivial=True):
        """Record a class this case belongs to"""
        self.labels.append(label)
        if nontrivial:
            self.nontrivial = True

    def call(self, what, func, *args, **kwargs):
        """Call the code under test, which must not raise"""
        try:
            return func(*args, **kwargs)
        except (Violation, HarnessError):
            raise
        except SystemExit as e:
            if e.code in (None, 0):
                return None
            raise Violation(f"{what} ended with the code {e.code}") from e
        except Exception as e:
            raise Violation(
                f"{what} raised {type(e).__name__}: {str(e)[:500]}"
            ) from e

    def raises(self, what, errors, func, *args, **kwargs):
        """Call the code under test, which must raise one of `errors`"""
        try:
            res = func(*args, **kwargs)
        except errors:
            return
        except (Violation, HarnessError):
            raise
        except (Exception, SystemExit) as e:
            raise Violation(
                f"{what} raised {type(e).__name__} ({str(e)[:300]}) instead "
                f"of {errors}"
            ) from e
        raise Violation(f"{what} did not raise {errors} but gave "
                        f"{repr(res)[:200]}")

    def check(self, cond, message, key=None):
        if not cond:
            raise Violation(message() if callable(message) else message, key)

    def close(self):
        for f in reversed(self.cleanups):
            with contextlib.suppress(Exception):
                f()
        if "tables" in sys.modules:
            with contextlib.suppress(Exception):
                import tables
                tables.file._open_files.close_all()
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)


def clean_bytecode():
    """Stale bytecode would hide a change made within the same second."""
    for root, dirs, _ in os.walk(PACKAGE):
        if "__pycache__" in dirs:
            shutil.rmtree(os.path.join(root, "__pycache__"),
                          ignore_errors=True)
            dirs.remove("__pycache__")


def in_repo(exc):
    """Was the exception raised by the code under test (or below it)?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame in traceback.extract_tb(exc.__traceback__):
            if os.path.abspath(frame.filename).startswith(PACKAGE + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def digest(case):
    try:
        raw = pickle.dumps(case, protocol=4)
    except Exception:
        raw = repr(case).encode()
    return hashlib.sha1(raw).hexdigest()


def size_of(case):
    try:
        return len(pickle.dumps(case, protocol=4))
    except Exception:
        return len(repr(case))


def short(case, limit=600):
    import numpy as np
    with np.printoptions(threshold=20, precision=6):
        text = repr(case)
    return text if len(text) <= limit else text[:limit] + "..."


@contextlib.contextmanager
def silence():
    """The package prints its progress; keep stdout for the verdict."""
    out, err = sys.stdout, sys.stderr
    sink = io.StringIO()
    sys.stdout = sys.stderr = sink
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield sink
    finally:
        sys.stdout, sys.stderr = out, err


@contextlib.contextmanager
def plotted():
    """Gives access to the figure that is shown (instead of showing it)"""
    from matplotlib import pyplot as plt
    shown = []
    old = plt.show, plt.pause

    def keep(*args, **kwargs):
        shown.append(plt.gcf())

    plt.show = plt.pause = keep
    try:
        yield lambda: shown[-1]
    finally:
        plt.show, plt.pause = old


class Runner:
    def __init__(self, prop, subs, tier, seed, level_note="", shard=0,
                 verbose=False):
        self.prop = prop
        self.subs = subs
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.verbose = verbose
        self.start = time.time()
        self.known = load_known(prop)
        self.known_hit = {}
        self.stats = {}
        self.failures = []
        self.harness_errors = []

    # ------------------------------------------------------------ one case
    def execute(self, sub, case, stats=None, again=True):
        """Run one case; raises Violation or HarnessError"""
        ctx = Ctx()
        remember(sub, case)
        old = signal.signal(signal.SIGALRM, self._on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        try:
            with silence():
                try:
                    sub.check(ctx, case)
                except (Violation, HarnessError):
                    raise
                except MemoryError as e:
                    raise HarnessError("out of memory: " +
                                       traceback.format_exc()) from e
                except Exception as e:
                    if in_repo(e):
                        raise Violation(
                            f"{type(e).__name__}: {str(e)[:500]}") from e
                    if isinstance(e, UNEXPECTED):
                        # not of the kind or shape that it has to be
                        raise Violation(
                            "the outcome cannot be compared: "
                            f"{type(e).__name__}: {str(e)[:500]}") from e
                    raise HarnessError(traceback.format_exc()) from e
        except Violation as e:
            if e.key is not None and e.key in self.known:
                self.known_hit[e.key] = str(e)
                if stats is not None:
                    stats["known"] = stats.get("known", 0) + 1
                return
            raise
        except CaseTimeout:
            # cases take seconds at most: twice without end is a hang
            if stats is not None:
                stats["inconclusive"] = stats.get("inconclusive", 0) + 1
            if again:
                ctx.close()
                return self.execute(sub, case, stats, again=False)
            raise Violation(f"not finished after {CASE_LIMIT} s, twice")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            ctx.close()
        if stats is not None:
            stats["labels"] = stats.get("labels", {})
            for label in set(ctx.labels):
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if ctx.nontrivial:
                h = digest(case)
                if h not in stats["hashes"]:
                    stats["hashes"].add(h)
                    if len(stats["samples"]) < 3:
                        stats["samples"].append(short(case))

    @staticmethod
    def _on_alarm(signum, frame):
        raise CaseTimeout()

    # ------------------------------------------------------- one sub-check
    def run_sub(self, index, sub, deadline, shrink_time):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        stats = dict(evaluations=0, hashes=set(), samples=[], labels={},
                     inconclusive=0, rule=sub.rule)
        self.stats[sub.name] = stats
        n = sub.quick if self.tier == "quick" else sub.thorough
        best = {}

        def failed(case, exc):
            cost = size_of(case)
            if not best or cost <= best["cost"]:
                best.update(case=case, cost=cost, message=str(exc),
                            trace=traceback.format_exc())
            best.setdefault("until", time.time() + shrink_time)

        def body(case):
            now = time.time()
            if best:
                if now > best["until"]:
                    raise OutOfTime()
            elif now > deadline:
                raise OutOfTime()
            stats["evaluations"] += 1
            try:
                self.execute(sub, case, stats)
            except Violation as e:
                failed(case, e)
                raise

        test = given(case=sub.strategy())(body)
        test = settings(
            max_examples=n, database=None, deadline=None,
            suppress_health_check=list(HealthCheck), print_blob=False,
            report_multiple_bugs=False, derandomize=False,
            phases=(Phase.generate, Phase.shrink),
        )(test)
        test = hypothesis.seed(
            self.seed * 100003 + index * 1009 + self.shard)(test)
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            try:
                if sub.setup is not None:
                    sub.setup()
                test()
            except OutOfTime:
                if not best:
                    stats["stopped_early"] = True
            except Violation:
                pass
            except HarnessError as e:
                self.harness_errors.append(f"{sub.name}: {e}")
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                if not best:
                    self.harness_errors.append(
                        f"{sub.name}: {traceback.format_exc()}")
        if best:
            self.failures.append(dict(sub=sub.name, **{
                k: best[k] for k in ("case", "message", "trace")}))

    def run(self):
        generate, shrink = LIMITS[self.tier]
        begin = time.time()
        for i, sub in enumerate(self.subs):
            left = begin + generate - time.time()
            share = left / (len(self.subs) - i)
            # a sub-check may use what the earlier ones left over
            self.run_sub(i, sub, time.time() + max(share, 5), shrink)
            if self.verbose:
                s = self.stats[sub.name]
                print(f"  {sub.name}: {s['evaluations']} cases, "
                      f"{len(s['hashes'])} non-trivial, "
                      f"labels={s['labels']}, "
                      f"t={time.time() - begin:.1f}s", flush=True)
            if self.failures and self.tier == "quick":
                break


# ---------------------------------------------------------------- findings
def load_known(prop):
    """Keys of the recorded, unrepaired findings of this property"""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(None, 3)
            # known: property=<id> key=<key> <what fails>
            if len(parts) == 4 and parts[0] == "known:" and \
                    parts[1] == f"property={prop}":
                known[parts[2].split("=", 1)[1]] = parts[3]
    return known


# ------------------------------------------------------------------ replay
def write_replay(prop, failure, seed, tier):
    folder = os.path.join(VERIF, "replays")
    try:
        os.makedirs(folder, exist_ok=True)
    except OSError:
        folder = tempfile.gettempdir()
    path = os.path.join(folder, f"{prop}-{failure['sub']}.json")
    payload = dict(
        property=prop, sub=failure["sub"], seed=seed, tier=tier,
        message=failure["message"], case=short(failure["case"], 20000),
        traceback=failure["trace"],
        case_pickle=base64.b64encode(
            pickle.dumps(failure["case"], protocol=4)).decode(),
    )
    with open(path, "w") as f:
        json.dump(payload, f, indent=1)
    return path


def watchdog(seconds, report):
    """Ends the process in time even if compiled code hangs."""
    def end():
        report()
        sys.__stdout__.flush()
        os._exit(0)
    t = threading.Timer(seconds, end)
    t.daemon = True
    t.start()
    return t
