"""Executes one case against the real vrpy code and records what it did.

Instrumentation sits on boundaries outside vrpy (PuLP, the clock, the random
number generators) and on vrpy's public API, so it does not depend on how the
code under test is written.
"""
import contextlib
import logging
import os
import random
import signal
import sys
import time as _time
import warnings


class Clock:
    """Injectable wall clock: real time plus jumps / drift scheduled by a case."""

    real = staticmethod(_time.time)
    offset = 0.0
    calls = 0
    step = 0.0
    jump_at = None
    jump = 0.0
    slow = 0.0  # seconds that pass during each search or master problem
    first = None  # the first reading of a case, taken as its start

    @classmethod
    def elapsed(cls):
        """Seconds (injected and real) since the first reading of the case."""
        return 0.0 if cls.first is None else cls.real() + cls.offset - cls.first

    @classmethod
    def reset(cls, spec=None):
        spec = spec or {}
        cls.first = None
        cls.offset, cls.calls = 0.0, 0
        cls.step = spec.get("step", 0.0)
        cls.jump_at = spec.get("jump_at")
        cls.jump = spec.get("jump", 0.0)
        cls.slow = spec.get("slow", 0.0)


def _virtual(real):
    def now():
        Clock.calls += 1
        Clock.offset += Clock.step
        if Clock.jump_at is not None and Clock.calls == Clock.jump_at:
            Clock.offset += Clock.jump
        if Clock.first is None:
            Clock.first = Clock.real() + Clock.offset
        return real() + Clock.offset
    return now


_monotonic = _time.monotonic  # the harness itself reads the real clock
for _n in ("time", "monotonic", "perf_counter"):  # before vrpy is imported, so that it reads these
    setattr(_time, _n, _virtual(getattr(_time, _n)))

REPO = os.environ.get("VRPY_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402
import pulp  # noqa: E402

from . import model as M  # noqa: E402


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


@contextlib.contextmanager
def watchdog(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# --------------------------------------------------------------------------
# PuLP boundary monitor
# --------------------------------------------------------------------------
class PulpTrace:
    """Records every LP/MIP that goes through pulp.LpProblem.solve."""

    def __init__(self):
        self.events = []
        self.active = False
        self.master = None
        self.starve = False
        self.starved = 0
        self.solver_crash = False

    def is_final(self, prob):
        covers = [c for c in prob.constraints if c.startswith("visit_node_")]
        return bool(covers) and prob.constraints[covers[0]].sense == pulp.LpConstraintEQ

    def install(self):
        if getattr(pulp.LpProblem, "_vtrace", None):
            return pulp.LpProblem._vtrace
        orig_solve = pulp.LpProblem.solve
        trace = self

        def solve(prob, *a, **kw):
            before = Clock.elapsed() if trace.active else 0.0
            given = None
            if trace.active and trace.starve:
                solver = a[0] if a else kw.get("solver")
                if getattr(solver, "timeLimit", None) is not None and trace.is_final(prob):
                    given = solver.timeLimit
                    solver.timeLimit = 0  # a machine so slow that CBC is stopped before its first integer solution
                    trace.starved += 1
            try:
                r = orig_solve(prob, *a, **kw)
                if given is not None and prob.status == pulp.LpStatusInfeasible:
                    # with no time at all, CBC calls some feasible problems infeasible: that is CBC's, give it its time
                    solver.timeLimit = given
                    trace.starved -= 1
                    r = orig_solve(prob, *a, **kw)
            except pulp.PulpSolverError:
                trace.blame(prob, orig_solve)
                raise
            if trace.active:
                solver = a[0] if a else kw.get("solver")
                trace.record(prob, getattr(solver, "timeLimit", None), before)
                Clock.offset += Clock.slow
            return r

        pulp.LpProblem.solve = solve
        pulp.LpProblem._vtrace = trace
        return trace

    def blame(self, prob, orig_solve):
        """CBC's barrier sometimes crashes: not vrpy's fault if the same problem is solved without it."""
        try:
            orig_solve(prob, pulp.PULP_CBC_CMD(msg=False, timeLimit=20))
            self.solver_crash = True
        except pulp.PulpSolverError:
            pass

    def record(self, prob, limit=None, before=0.0):
        try:
            obj = pulp.value(prob.objective)
        except Exception:
            obj = None
        name = str(prob.name)
        covers = [c for c in prob.constraints if c.startswith("visit_node_")]
        final = bool(covers) and prob.constraints[covers[0]].sense == pulp.LpConstraintEQ
        if covers and name == "MasterProblem" or covers and self.master is None:
            name, self.master = "MasterProblem", prob
        # anything asked to choose whole routes is the final selection
        final = final or name == "MasterProblem" and any(
            v.cat == pulp.LpInteger and v.name[:1] == "y" and v.name[1:].isdigit() for v in prob.variables())
        self.events.append(dict(name=name, status=int(prob.status), obj=obj, final=final,
                                dive=any(c.startswith("fix_") for c in prob.constraints),
                                nvars=len(prob._variables), clock=before, limit=limit))

    def columns(self, customers):
        """Routes offered to the master: [(coef by customer, cost, type or None, usable)]."""
        prob = self.master
        if prob is None:
            return []
        label = {pulp.LpVariable("visit_node_%s" % (v,)).name: v for v in customers}
        cover, types, span = {}, {}, {}
        for name, c in prob.constraints.items():
            if name in label:
                for var, x in c.items():
                    cover.setdefault(var.name, {})[label[name]] = x
            elif name.startswith("makespan_"):
                for var, x in c.items():
                    span[var.name] = x
            elif name.startswith("upper_bound_vehicles_"):
                for var, x in c.items():
                    types[var.name] = int(name.rsplit("_", 1)[1])
        out = []
        cost = {v.name: x for v, x in prob.objective.items()}
        for var in prob.variables():
            if var.name.startswith("y") and var.name in cover:
                out.append((cover[var.name], cost.get(var.name, span.get(var.name, 0.0)), types.get(var.name),
                            var.upBound is None or var.upBound > 0))
        return out


TRACE = PulpTrace().install()


def _watch_cspy():
    """Records the limits given to each cspy search."""
    import cspy
    orig = cspy.BiDirectional.__init__

    def init(self, *a, **kw):
        if TRACE.active:
            TRACE.events.append(dict(name="cspy", status=1, obj=None, final=False, dive=False, nvars=0,
                                     clock=Clock.elapsed(), limit=kw.get("time_limit"),
                                     elementary=bool(kw.get("elementary"))))
            Clock.offset += Clock.slow
        return orig(self, *a, **kw)

    cspy.BiDirectional.__init__ = init


_watch_cspy()


@contextlib.contextmanager
def untraced():
    old, TRACE.active = TRACE.active, False
    try:
        yield
    finally:
        TRACE.active = old


# --------------------------------------------------------------------------
# Building and running
# --------------------------------------------------------------------------
def build_graph(graph):
    G = nx.DiGraph()
    for name, attrs in graph["nodes"]:
        a = dict(attrs)
        if "request" in a:
            a["request"] = M.tup(a["request"])
        G.add_node(M.tup(name), **a)
    for u, v, attrs in graph["edges"]:
        a = {k: (list(x) if isinstance(x, list) else x) for k, x in attrs.items()}
        G.add_edge(M.tup(u), M.tup(v), **a)
    return G


def fresh_params(params):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in params.items()}


def fresh_solve(solve):
    s = dict(solve)
    for key in ("initial_routes", "preassignments"):
        if s.get(key):
            s[key] = [[M.tup(v) for v in r] for r in s[key]]
    return s


OUT_ATTRS = ["best_value", "best_routes", "best_routes_type", "best_routes_cost",
             "best_routes_load", "node_load", "best_routes_duration",
             "arrival_time", "departure_time", "schedule"]


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_copy(v) for v in x] if isinstance(x, list) else tuple(_copy(v) for v in x)
    return x


def collect(prob):
    out = {}
    for a in OUT_ATTRS:
        try:
            out[a] = _copy(getattr(prob, a))
        except Exception as e:  # reported as part of the outcome
            out[a] = None
            out.setdefault("attr_errors", {})[a] = "%s: %s" % (type(e).__name__, e)
    out["dropped"] = list(getattr(prob, "_dropped_nodes", []) or [])
    out["lower_bound"] = list(getattr(prob, "_lower_bound", []) or [])
    out["iterations"] = getattr(prob, "_iteration", None)
    return out


class Outcome:
    __slots__ = ("status", "exc", "msg", "out", "events", "wall", "prob", "G", "tb", "columns", "history")

    def __init__(self):
        self.status = self.exc = self.msg = self.prob = self.G = self.tb = None
        self.out, self.events, self.columns, self.history, self.wall = {}, [], [], [], 0.0

    @property
    def masters(self):
        return [e for e in self.events if e["name"] == "MasterProblem"]

    @property
    def relaxed(self):
        """Values of the relaxed master problems, in order (before any diving)."""
        out = []
        for e in self.masters:
            if e["final"] or e["dive"]:
                break
            out.append(e["obj"] or 0.0)
        return out


def seed_all(seed):
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))


def run_case(case, timeout=60, prob=None, G=None):
    """Run the constructor and the solve() calls of one case.  Never raises.

    case["history"] holds the options of earlier solve() calls on the same
    object, case["clock"] the schedule of the injected clock.
    """
    from vrpy import VehicleRoutingProblem
    o = Outcome()
    seed_all(case.get("seed", 0))
    TRACE.events, TRACE.master, TRACE.solver_crash = [], None, False
    t0 = _monotonic()
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), watchdog(timeout):
            if prob is None:
                G = build_graph(case["graph"]) if G is None else G
                o.G = G
                prob = VehicleRoutingProblem(G, **fresh_params(case["params"]))
            o.prob = prob
            for s in case.get("history", []):
                try:
                    prob.solve(**fresh_solve(s))
                    o.history.append("ok")
                except Exception as e:  # only the last call is judged
                    o.history.append(type(e).__name__)
            seed_all(case.get("seed", 0))
            TRACE.active = True
            TRACE.starve, TRACE.starved = bool(case.get("starve")), 0
            Clock.reset(case.get("clock"))
            try:
                prob.solve(**fresh_solve(case.get("solve", {})))
            finally:
                Clock.reset()
                TRACE.active = False
            o.out = collect(prob)
        o.status = "ok"
    except CaseTimeout:
        o.status = "timeout"
    except Exception as e:
        import traceback
        o.status, o.exc, o.msg = "exception", type(e).__name__, str(e)[:300]
        o.tb = traceback.format_exc(limit=-4)
        if o.exc == "PulpSolverError" and TRACE.solver_crash:
            o.status = "timeout"  # inconclusive, the LP solver crashed
    finally:
        TRACE.active = False
        Clock.reset()
    o.events = TRACE.events
    try:
        o.columns = TRACE.columns([M.tup(v) for v, _ in case["graph"]["nodes"] if v not in ("Source", "Sink")])
    except Exception:
        o.columns = []
    TRACE.master = None
    o.wall = _monotonic() - t0
    return o
