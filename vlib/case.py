"""Violation, per-case recorder, and the step budget. No dependency on hypothesis: replays use only this."""
import hashlib
import os
import signal
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_SRC = os.path.join(REPO, "richard") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep


class Violation(Exception):
    """The property does not hold on this case."""


class OutOfSteps(BaseException):
    """Code under test used far more steps than any case in the domain needs."""


class Known(Exception):
    """Carries the id of a finding that is listed in known_findings.json"""


class Discard(Exception):
    """The case is outside the domain (counted, never silently)."""


class Rec:
    """What one case did; filled by the check function."""
    __slots__ = ("nontrivial", "labels", "notes")

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.notes = None

    def label(self, *names):
        self.labels.extend(names)

    def interesting(self, condition=True):
        if condition:
            self.nontrivial = True


def short(value, limit=600):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + " ...(" + str(len(text)) + " chars)"


def fail(message, **details):
    lines = [message] + [f"   {key}: {short(value, 1500)}" for key, value in details.items()]
    raise Violation("\n".join(lines))


def expect(condition, message, **details):
    if not condition:
        fail(message, **details)


def case_key(case):
    return hashlib.sha1(repr(case).encode("utf-8", "surrogatepass")).hexdigest()[:16]


# ---------------------------------------------------------------- step budget

class StepBudget:
    """Counts function starts and backward jumps in the code under test; deterministic, unlike a clock."""
    TOOL = 4

    def __init__(self):
        self.left = 0
        self.active = False
        self.installed = False

    def install(self):
        if self.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif-steps")
        ev = mon.events
        mon.register_callback(self.TOOL, ev.PY_START, self._start)
        mon.register_callback(self.TOOL, ev.JUMP, self._jump)
        mon.set_events(self.TOOL, ev.PY_START | ev.JUMP)
        self.installed = True

    def _start(self, code, offset):
        if not code.co_filename.startswith(REPO_SRC):
            return sys.monitoring.DISABLE
        self._tick()

    def _jump(self, code, offset, dest):
        if not code.co_filename.startswith(REPO_SRC):
            return sys.monitoring.DISABLE
        if dest < offset:
            self._tick()

    def _tick(self):
        if self.active:
            self.left -= 1
            if self.left <= 0:
                self.active = False
                raise OutOfSteps()


BUDGET = StepBudget()


def classify(exc):
    """'repo' when the exception came out of the code under test itself, else 'harness'"""
    for frame, _ in reversed(list(traceback.walk_tb(exc.__traceback__))):
        name = frame.f_code.co_filename
        if name.startswith(REPO_SRC):
            return "repo"
        if name.startswith(VERIF):
            return "harness"
    return "harness"


CPU_SECONDS = 100


def out_of_time(*_):
    raise OutOfSteps()


def run_case(check, case, rec, steps):
    """Runs one case. Raises Violation or Discard, or lets a harness error through."""
    BUDGET.install()
    # processor time, not wall time: for loops inside C code, which take no steps
    signal.signal(signal.SIGVTALRM, out_of_time)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_SECONDS)
    BUDGET.left = steps
    BUDGET.active = True
    try:
        check(case, rec)
    except OutOfSteps:
        raise Violation(f"the code under test did not finish within {steps} steps and {CPU_SECONDS} s of processor time") from None
    except (Violation, Discard, Known):
        raise
    except Exception as e:
        BUDGET.active = False
        if type(e).__module__.startswith("hypothesis"):
            raise
        if classify(e) == "repo":
            trace = traceback.format_exception(type(e), e, e.__traceback__)
            raise Violation("unexpected exception from the code under test:\n" + "".join(trace[-8:])) from None
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        BUDGET.active = False
