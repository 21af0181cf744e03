"""Core of the property checks: registration, the Hypothesis driver, watchdogs, evidence.

A check module registers *sub-checks*: a Hypothesis strategy producing plain JSON values (the "case") and a
function which exercises svgio on that case against an oracle.  The function raises (Violation, or anything
else) when the property does not hold, returns True for a case that counts as non-trivial by the rule of
the module, and False/None for a trivial one.  Cases being plain JSON, the shrunk failing case is the replay
file, and replaying needs neither Hypothesis nor the seed.
"""
import collections
import contextlib
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CASE_CPU_LIMIT = 40.0  # seconds of CPU one generated case may take; the normal cost is milliseconds
MEM_LIMIT = 6 << 30
LOG = 3000  # how many of the last cases are kept, should a failure depend on what went before


class Violation(AssertionError):
    pass


class CaseTimeout(Violation):
    pass


class Abort(KeyboardInterrupt):
    """Leaves the Hypothesis engine at once (it does not swallow KeyboardInterrupt)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


SUBS = {}  # property -> list of Sub
RULES = {}  # property -> text


class Sub:
    def __init__(self, prop, name, strategy, fn, quick, thorough, weight):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.weight = weight


def sub(prop, name, strategy, quick=600, thorough=None, weight=1):
    """Registers a sub-check. quick/thorough: numbers of generated cases per run."""

    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 25, weight)
        )
        return fn

    return deco


def rule(prop, text):
    RULES[prop] = text


@contextlib.contextmanager
def without(*modules):
    """Makes importing the given modules fail, as on an installation without them."""
    names = []
    for m in modules:
        names += [m] + {"scipy": ["scipy.integrate", "scipy.special"]}.get(m, [])
    saved = {}
    for n in names:
        saved[n] = sys.modules.get(n, Ellipsis)
        sys.modules[n] = None
    try:
        yield
    finally:
        for n, v in saved.items():
            if v is Ellipsis:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = v


def no_bytecode_import():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # numpy and scipy are imported lazily by svgio: have them loaded before timing a case.
    try:
        import numpy  # noqa
        import scipy.integrate  # noqa
        import scipy.special  # noqa
    except ImportError:
        pass
    import warnings

    warnings.simplefilter("ignore")
    import svgio  # noqa

    where = os.path.abspath(svgio.__file__)
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("svgio was imported from %s, not from %s" % (where, REPO))


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def limit_resources():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass


@contextlib.contextmanager
def watchdog(seconds):
    def on_alarm(sig, frame):
        raise CaseTimeout("the case used more than %g s of CPU time: it does not terminate" % seconds)

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def describe(e):
    """One line saying how the case failed, with the place when it is an unexpected exception."""
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            where = " in %s (%s)" % (os.path.relpath(fr.filename, REPO), fr.name)
            break
    else:
        if tb:
            where = " at %s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
    return "unexpected %s%s: %s" % (type(e).__name__, where, str(e)[:300])


def repeated(text):
    """Some cases are decided a second time: what the first time left behind may change nothing."""
    return zlib.crc32(text.encode("utf-8", "surrogatepass")) % 4 == 0


def run_case(fn, text, again=True):
    """Returns (nontrivial, None) or (None, exception)."""
    import hypothesis

    try:
        with watchdog(CASE_CPU_LIMIT):
            nontrivial = bool(fn(json.loads(text)))
        if again:
            with watchdog(CASE_CPU_LIMIT):
                fn(json.loads(text))
        return nontrivial, None
    except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
        raise
    except Exception as e:
        return None, e


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failure = None  # (case, message)
        self.before = []  # the cases decided before the failing one
        self.known = []  # descriptions of known findings met
        self.error = None
        self.capped = False

    def as_json(self):
        return {
            "evaluations": self.evaluations,
            "distinct": sorted(self.distinct),
            "samples": self.samples,
            "failure": self.failure,
            "before": self.before,
            "known": self.known,
            "error": self.error,
            "capped": self.capped,
        }


def run_sub(s, examples, seed, wall_cap, shrink_cap=90.0, is_known=None):
    """Drives one sub-check with generated cases; shrinks a failure. Returns a Result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = Result()
    start = time.monotonic()
    state = {"best": None, "first": None}
    log = collections.deque(maxlen=LOG)

    def body(case):
        now = time.monotonic()
        if state["first"] is not None and now - state["first"] > shrink_cap:
            raise Abort()
        if state["first"] is None and now - start > wall_cap:
            res.capped = True
            raise Abort()
        text = canonical(case)
        nontrivial, exc = run_case(s.fn, text, repeated(text))
        if exc is not None:
            message = describe(exc)
            k = is_known(s, case, message) if is_known else None
            if k:
                if k not in res.known:
                    res.known.append(k)
                return
            if state["first"] is None:
                state["first"] = now
            if state["best"] is None or len(text) <= len(canonical(state["best"][0])):
                state["best"] = (case, message)
            if isinstance(exc, CaseTimeout):
                raise Abort()
            raise exc
        if state["first"] is None:
            res.evaluations += 1
            log.append(text)
            if nontrivial:
                h = hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
                if h not in res.distinct:
                    res.distinct.add(h)
                    if len(res.samples) < 3 or (len(res.samples) < 6 and len(res.distinct) % 97 == 0):
                        res.samples.append({"sub_check": s.name, "case": case})

    test = settings(
        max_examples=examples,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(given(s.strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Abort:
        pass
    except BaseException as e:  # noqa
        if state["best"] is None:
            res.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if state["best"] is not None:
        res.failure = [s.name, state["best"][0], state["best"][1]]
        res.before = list(log)
        res.error = None
    return res
