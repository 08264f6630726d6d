"""The properties: workload, execution and judgement of each."""
import collections
import json
import os

from . import gen as G
from . import model as M
from . import oracles as O
from . import ref
from . import run as R
from . import work as W
from .model import SOURCE, SINK, close

PROPS = {}
FINDINGS = ["partial", "periodic"]  # inputs of the known findings


class Result(dict):
    """verdict: ok | violation | inconclusive"""


def result(case, verdict="ok", msgs=(), reason=None, nontrivial=False, obs=None, finding=None, sig=None):
    return Result(verdict=verdict, msgs=[str(x)[:400] for x in msgs][:4], reason=reason, nontrivial=bool(nontrivial),
                  obs=dict(obs or {}), case=case, finding=finding, sig=sig)


class Prop:
    level = "exploration"
    quick = 400
    thorough = 4000
    case_timeout = 20
    hard = None  # seconds after which the worker is killed (code that does not react to signals)
    rule = ""
    technique = ""
    assumptions = []

    def __init__(self, pid):
        self.pid = pid

    def kinds(self, tier):
        """[(kind, count)]"""
        return [("std", self.quick if tier == "quick" else self.thorough)]

    def jobs(self, tier, seed):
        """Interleaves the kinds so that a cut-off run still covers all of them."""
        ks = self.kinds(tier)
        top = max(n for _, n in ks)
        jobs = []
        for i in range(top):
            for kind, n in ks:
                # spread kind's n jobs evenly over the list
                if (i * n) // top != ((i + 1) * n) // top:
                    jobs.append((kind, (i * n) // top))
        return jobs

    def make(self, kind, i, seed):
        raise NotImplementedError

    def judge(self, case):
        raise NotImplementedError

    def run(self, job, seed):
        kind, i = job
        case = self.make(kind, i, seed)
        case["job"] = [self.pid, kind, i, seed]
        return self.judge(case)


def unexpected(m, o):
    """None if the exception is an answer the API may give, else a message."""
    if o.status != "exception":
        return None
    infeasible = o.exc == "Exception" and "nfeasible" in (o.msg or "")
    if m.nveh and not m.periodic and infeasible:
        return None
    return "solve() raised %s: %s on a problem where every customer can be served\n%s" % (o.exc, o.msg, o.tb)


def observe(m, o, case):
    obs = {"runs_" + o.status: 1, "routes": len(o.out.get("best_routes") or {}), "columns_seen": len(o.columns),
           "pulp_solves": len(o.events), "mode_" + case.get("mode", "plain"): 1,
           "pricing_" + ("cspy_" if case["solve"].get("cspy", True) else "lp_")
           + case["solve"].get("pricing_strategy", "BestEdges1"): 1}
    for f in case.get("features", []):
        obs["feature_" + f] = 1
    return obs


def signature(m, o, case):
    rs = sorted((o.out["best_routes_type"] or {}).get(i, 0) * 1000 + len(r)
                for i, r in o.out["best_routes"].items()) if o.status == "ok" else []
    return "|".join(map(str, (",".join(case.get("features", [])), case.get("mode"),
                              case["solve"].get("pricing_strategy"), case["solve"].get("cspy"),
                              case["solve"].get("greedy"), len(m.customers), rs, round(sum(
                                  c[0][0] for c in m.edge.values()), 3))))


class Constraint(Prop):
    """Judges every returned route and every offered column against one constraint."""

    require = ()
    allow = W.ALL
    hard = 50
    oracles = ()
    column_kinds = ()
    big = 20
    p = 0.3
    holes = 0.1
    technique = "runtime monitor on returned routes and on every column seen at the PuLP boundary, independent recomputation oracle"
    rule = ("seeded random problems with the constraint active x pricing options x calling modes (initial routes, "
            "max_iter, injected clock, diving, locked routes, repeated solves); non-trivial: at least one path of the "
            "graph violates the constraint, so that the solver has something to avoid; distinct: features, options, "
            "size, route shapes and cost sum")

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("std", n), ("big", self.big if tier == "quick" else self.big * 10)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        req = self.require(rng) if callable(self.require) else self.require
        if kind == "big":
            if "pd" in req:
                return W.scenario(rng, req, self.allow, n=6, p=self.p)
            return W.big_scenario(rng, req, self.allow, p=self.p)
        return W.scenario(rng, req, self.allow, p=self.p, opts=self.options(rng), holes=self.holes, unreach=0.5)

    def options(self, rng):
        return None

    def nontrivial(self, m, o):
        orders = m.orders()
        if orders is None:
            return True
        for rs in orders.values():
            for r in rs[:6]:
                if self.route_bad(m, r):
                    return True
        return False

    def route_bad(self, m, r):
        return False

    def judge(self, case):
        m = M.Model(case["graph"], case["params"])
        o = R.run_case(case, self.case_timeout)
        obs = observe(m, o, case)
        if o.status == "timeout":
            return result(case, "inconclusive", reason="watchdog", obs=obs)
        if o.status == "exception":
            u = unexpected(m, o)
            if u:
                return result(case, "violation", [u], obs=obs)
            return result(case, "inconclusive", reason="reported infeasible", obs=obs)
        msgs = []
        for f in self.oracles:
            msgs += f(m, o, case)
        for kind in self.column_kinds:
            msgs += O.column_errors(m, o, kind, case)
        msgs += self.extra(m, o, case)
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=self.nontrivial(m, o))

    def extra(self, m, o, case):
        return []


def prop(pid, **attrs):
    def deco(cls):
        for k, v in attrs.items():
            setattr(cls, k, v)
        PROPS[pid] = cls(pid)
        return cls
    return deco


@prop("C01")
class Coverage(Constraint):
    require = ()
    oracles = (O.coverage,)
    column_kinds = ("path",)
    quick = 550
    rule = Constraint.rule.replace("with the constraint active", "of every type").replace(
        "at least one path of the graph violates the constraint, so that the solver has something to avoid",
        "at least 3 customers")

    def nontrivial(self, m, o):
        return len(m.customers) >= 3


@prop("C02")
class Load(Constraint):
    require = ("cap",)
    allow = ["cap", "stops", "dur", "tw", "mixed", "mixed", "fixed", "fleet", "drop", "periodic"]
    oracles = (O.load,)
    column_kinds = ("load",)
    quick = 650

    def route_bad(self, m, r):
        return any(m.load_errors(r, k) for k in range(m.K))


@prop("C03")
class Stops(Constraint):
    require = ("stops",)
    oracles = (O.stops,)
    column_kinds = ("stops",)
    quick = 800

    def route_bad(self, m, r):
        return m.stops_errors(r)


@prop("C04")
class Duration(Constraint):
    require = ("dur",)
    oracles = (O.duration,)
    column_kinds = ("duration",)
    quick = 800

    def route_bad(self, m, r):
        return m.duration_errors(r)


@prop("C05")
class Windows(Constraint):
    require = ("tw",)
    allow = ["cap", "stops", "dur", "sdc", "pd", "mixed", "fixed", "fleet", "drop", "periodic"]
    oracles = (O.windows,)
    column_kinds = ("tw",)
    quick = 700

    def kinds(self, tier):
        return Constraint.kinds(self, tier) + [("depot", 200 if tier == "quick" else 2000)]

    def make(self, kind, i, seed):
        if kind != "depot":
            return Constraint.make(self, kind, i, seed)
        # the depot opens late, customers have to be served soon after, detours may be faster
        rng = W.rng_for(self.pid, seed, kind, i)
        case = W.scenario(rng, ("tw",), ["cap", "stops", "drop", "fixed", "mixed", "sdc"], p=0.15,
                          modes=["plain"] * 6 + ["maxiter", "dive", "again"], n=rng.randint(3, 5), density=1.0,
                          geo=rng.choice(["random", "random", "asym"]), opts={"cspy": rng.random() < 0.3})
        g = case["graph"]
        A, E = G.attrs(g), G.edict(g)
        start, tight = rng.randint(3, 25), rng.choice([2, 6, 12])
        last = 0
        for v in A:
            if v in (SOURCE, SINK):
                continue
            A[v]["lower"] = rng.choice([0, 0, rng.randint(0, start)])
            A[v]["upper"] = int(start + E[SOURCE, v]["time"] + rng.randint(0, tight)) + 1
            last = max(last, A[v]["upper"] + A[v].get("service_time", 0) + E[v, SINK]["time"])
            c = rng.choice([0, 30])
            x = E[SOURCE, v]["cost"]
            E[SOURCE, v]["cost"] = [y + c for y in x] if isinstance(x, list) else x + c
        A[SOURCE].update(lower=start, upper=start + 200)
        A[SINK].update(lower=rng.choice([0, start]), upper=int(last) + 1 + rng.choice([0, 50]))
        return case

    def route_bad(self, m, r):
        return m.tw_errors(r)


@prop("C06")
class Sdc(Constraint):
    require = ("sdc",)
    allow = ["stops", "dur", "tw", "mixed", "fixed", "fleet", "drop", "periodic"]
    oracles = (O.sdc,)
    column_kinds = ("sdc",)
    quick = 700

    def route_bad(self, m, r):
        return any(m.sdc_errors(r, k) for k in range(m.K))


@prop("C07")
class PickupDelivery(Constraint):
    require = ("pd",)
    allow = ["stops", "dur", "tw", "fixed", "fleet", "drop", "mixed", "periodic"]
    oracles = (O.pd,)
    column_kinds = ("pd",)
    quick = 300

    def route_bad(self, m, r):
        return any(m.pd_errors(r, k) for k in range(m.K))


# --------------------------------------------------------------------------
@prop("C08")
class Fleet(Constraint):
    require = ("fleet",)
    allow = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "mixed", "fixed", "drop", "useall"]
    oracles = (O.fleet, O.coverage)
    quick = 500
    big = 15
    rule = ("seeded random problems with a limited fleet x pricing options x calling modes; kind 'ample': as many "
            "vehicles as customers, so that reporting infeasibility is itself a violation; kind 'tight': the fleet is "
            "smaller than the number of customers; kind 'span': the longest route is minimised; non-trivial: the unlimited optimum over enumerated routes would "
            "exceed the fleet, or all vehicles must be used")

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("std", n), ("ample", n // 2), ("span", n // 5), ("big", self.big if tier == "quick" else self.big * 10)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        modes = ["plain"] * 6 + ["maxiter", "clock", "dive", "again"]
        if kind == "span":
            return W.scenario(rng, ("fleet", "span"), ["cap", "stops", "tw", "sdc", "mixed", "drop"], p=0.2, modes=["plain"],
                              n=rng.choice([3, 4, 5, 6]))
        if kind == "big":
            return W.big_scenario(rng, self.require, self.allow)
        req = ("fleet",)
        allow = self.allow
        if kind == "ample":
            allow = [a for a in allow if a != "useall"]
        elif rng.random() < 0.25:
            req = ("fleet", "useall")
        case = W.scenario(rng, req, allow, modes=modes)
        n = len(case["graph"]["nodes"]) - 2
        if kind == "ample":
            nv = case["params"]["num_vehicles"]
            case["params"]["num_vehicles"] = [n] * len(nv) if isinstance(nv, list) else n
        case["ample"] = kind == "ample"
        return case

    def judge(self, case):
        r = Constraint.judge(self, case)
        if case.get("ample") and r["verdict"] == "inconclusive" and r["reason"] == "reported infeasible":
            return result(case, "violation", ["solve() reports an infeasible problem although there is one vehicle of "
                                              "each type per customer"], obs=r["obs"])
        return r

    def nontrivial(self, m, o):
        if m.use_all:
            return True
        with_all = m.nveh
        try:
            best = m.best_per_set(20000)
            m.nveh = None
            st, _, chosen = ref.solve_ref(m, best, True, "eq")
        except RuntimeError:
            return True
        finally:
            m.nveh = with_all
        if st != 1:
            return False
        per = collections.Counter(k for (k, _), _ in chosen)
        return any(per[k] > with_all[k] for k in range(m.K))


@prop("C09")
class Cost(Constraint):
    require = ()
    allow = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "mixed", "fixed", "fixed", "fleet", "drop", "periodic"]
    oracles = (O.accounting, O.final_objective)
    column_kinds = ("cost",)
    quick = 700
    rule = ("seeded random problems of every type x pricing options x calling modes; non-trivial: at least two routes, "
            "or a fixed cost, a penalty or several vehicle types enter the sum")

    def nontrivial(self, m, o):
        return len(o.out["best_routes"]) >= 2 or bool(m.fixed) or bool(m.drop) or m.K > 1


@prop("C10")
class Reports(Constraint):
    require = ()
    allow = ["cap", "cap", "stops", "dur", "dur", "tw", "tw", "sdc", "pd", "mixed", "fixed", "fleet", "drop", "periodic"]
    oracles = (O.reports,)
    quick = 700
    p = 0.4
    rule = ("seeded random problems of every type x pricing options x calling modes; non-trivial: a load or a time "
            "report is due")

    def nontrivial(self, m, o):
        return bool(m.cap or m.duration or m.tw)

    def extra(self, m, o, case):
        if not m.tw or not o.prob:
            return []
        msgs = []
        for name in ("check_arrival_time", "check_departure_time"):
            f = getattr(o.prob, name, None)
            if f is None:
                continue
            try:
                f()
            except Exception as e:
                msgs.append("%s() rejects the returned solution: %s %s" % (name, type(e).__name__, e))
        return msgs


@prop("C11")
class Drops(Constraint):
    require = ("drop",)
    allow = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "fleet"]
    oracles = (O.coverage, O.accounting)
    quick = 500
    holes = 0.0
    rule = ("seeded random problems with a drop penalty from 1 to 1000 x pricing options x calling modes; reference: "
            "optimum over all enumerated routes and drop sets; non-trivial: some but not all customers are dropped in "
            "the reference or the returned solution, or the penalty decides (a round trip costs more than it)")

    def extra(self, m, o, case):
        msgs = []
        v, n = o.out["best_value"], len(m.customers)
        if v > m.drop * n + 1e-6 and not case["solve"].get("preassignments"):
            msgs.append("best_value %s although dropping every customer costs %s" % (v, m.drop * n))
        try:
            best = m.best_per_set(20000)
        except RuntimeError:
            return msgs
        if not best:
            best = {(0, frozenset()): (0.0, None)}
        st, lo, _ = ref.solve_ref(m, best, True, "eq")
        if st == 1 and v < lo - 1e-5 * max(1, abs(lo)):
            msgs.append("best_value %s is below the optimum %s over all routes and drops" % (v, lo))
        # a single customer is only dropped if its round trip (an initial route of these problems) costs more
        if not m.nveh and not m.pd and (m.tw or m.sdc) and not case["solve"].get("initial_routes") and not case["solve"].get("preassignments"):
            for c in O.unserved(m, o):
                rt = [b[0] for (k, s), b in best.items() if s == frozenset([c])]
                if rt and not m.pd and min(rt) < m.drop - 1e-6 and m.K == 1:
                    msgs.append("customer %r dropped for %s although a round trip costs %s" % (c, m.drop, min(rt)))
        return msgs

    def nontrivial(self, m, o):
        k = len(O.unserved(m, o))
        return 0 < k < len(m.customers) or any(
            min(m.cost([SOURCE, v, SINK], k) for k in range(m.K)) > m.drop for v in m.customers)


# --------------------------------------------------------------------------
def best_schedule(m, routes, types, limit=200000):
    """Best achievable (max-min routes per day), or None if no feasible schedule; raises when too large."""
    T = m.periodic
    ids = sorted(routes, key=lambda i: -len(routes[i]))
    if m.nveh and any(x > T * m.nveh[k] for k, x in collections.Counter(types[i] for i in ids).items()):
        return None
    best, steps = None, 0
    ideal = 1 if len(ids) % T else 0
    day_nodes = [set() for _ in range(T)]
    day_type = [collections.Counter() for _ in range(T)]
    count = [0] * T

    def rec(x):
        nonlocal best, steps
        steps += 1
        if steps > limit:
            raise RuntimeError("too many schedules")
        if best == ideal:
            return
        if x == len(ids):
            s = max(count) - min(count)
            if best is None or s < best:
                best = s
            return
        r, k = set(routes[ids[x]][1:-1]), types[ids[x]]
        tried_empty = False
        for t in range(T):
            if not count[t]:
                if tried_empty:
                    continue  # empty days are interchangeable
                tried_empty = True
            if r & day_nodes[t] or m.nveh and day_type[t][k] >= m.nveh[k]:
                continue
            day_nodes[t] |= r
            day_type[t][k] += 1
            count[t] += 1
            rec(x + 1)
            day_nodes[t] -= r
            day_type[t][k] -= 1
            count[t] -= 1
    rec(0)
    return best


def schedule_errors(m, o):
    routes, types, sch = o.out["best_routes"], o.out["best_routes_type"], o.out["schedule"]
    if not isinstance(sch, dict):
        return ["schedule is %r" % (sch,)]
    try:
        best = best_schedule(m, routes, types)
    except RuntimeError:
        best = "?"
    if best is None or best == "?" and not sch:
        return []  # no schedule exists for these routes (or none could be ruled out)
    e = []
    days = collections.Counter(r for rs in sch.values() for r in rs)
    for r in routes:
        if days[r] != 1:
            e.append("route %s scheduled %s times" % (r, days[r]))
    for r in days:
        if r not in routes:
            e.append("unknown route %s scheduled" % r)
    count = []
    for t in range(m.periodic):
        rs = [r for r in sch.get(t, []) if r in routes]
        count.append(len(rs))
        c = collections.Counter(v for r in rs for v in routes[r][1:-1])
        for v, x in c.items():
            if x > 1:
                e.append("customer %r visited %s times on day %s" % (v, x, t))
        if m.nveh:
            per = collections.Counter(types[r] for r in rs)
            for k in range(m.K):
                if per[k] > m.nveh[k]:
                    e.append("%s routes of type %s on day %s, %s vehicles" % (per[k], k, t, m.nveh[k]))
    if set(sch) - set(range(m.periodic)):
        e.append("schedule has days %s, the period is %s days" % (sorted(sch), m.periodic))
    if not e and best != "?" and max(count) - min(count) > best:
        e.append("routes per day %s, a schedule with difference %s exists" % (count, best))
    return e


@prop("C12")
class Periodic(Constraint):
    require = ("periodic",)
    allow = ["cap", "stops", "dur", "fixed", "fleet", "fleet", "mixed", "tw", "sdc", "pd"]
    oracles = (O.coverage,)
    column_kinds = ()
    quick = 500
    big = 10
    rule = ("seeded random periodic problems (2 to 4 days, frequencies 1 to the period) x pricing options x calling "
            "modes; the schedule is compared with all schedules of the returned routes; non-trivial: some frequency is "
            "greater than one")

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        if kind == "big":
            return W.big_scenario(rng, self.require, self.allow)
        return W.scenario(rng, self.require, self.allow, modes=[x for x in W.MODES if x != "locked"])

    def extra(self, m, o, case):
        return schedule_errors(m, o) if o.out["best_routes"] else []

    def nontrivial(self, m, o):
        return any(m.node[v]["frequency"] > 1 for v in m.customers)


# --------------------------------------------------------------------------
@prop("C13")
class Locked(Constraint):
    allow = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "fleet", "drop"]
    oracles = (O.coverage, O.load, O.stops, O.duration, O.windows, O.sdc, O.pd, O.fleet, O.accounting)
    quick = 500
    big = 0
    rule = ("seeded random problems x random disjoint feasible routes handed over as preassignments (complete routes, "
            "and open-ended parts of routes) x pricing options; non-trivial: the reference optimum without them uses "
            "none of the locked routes")

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("full", n), ("partial", n // 5), ("finding", len(FINDINGS))]

    def make(self, kind, i, seed):
        if kind == "finding":
            return json.load(open(os.path.join(os.path.dirname(__file__), "..", "findings", FINDINGS[i] + ".json")))
        rng = W.rng_for(self.pid, seed, kind, i)
        while True:
            allow = self.allow if kind == "full" else ["cap", "stops", "dur", "tw", "mixed", "mixed"]
            f = G.pick_features(rng, (), allow, 0.25)
            g, par = G.compose(rng, f, n=rng.randint(3, 6) if "pd" not in f else None)
            m = M.Model(g, par)
            s = G.solve_options(rng, cspy=False if "pd" in f else None)
            case = {"graph": g, "params": par, "solve": s, "seed": rng.randrange(10 ** 6), "features": sorted(f),
                    "mode": "locked-" + kind}
            rts = W.feasible_routes(m)
            sol, seen = W.random_partition(rng, m, rts, rng.choice([1, 1, 2, 3, 99]))
            if not sol:
                continue
            if m.nveh:
                n = len(m.customers) + len(sol)
                par["num_vehicles"] = [n] * m.K if isinstance(par["num_vehicles"], list) else n
            if kind == "partial":
                sol = [r[rng.randint(0, 1):len(r) - rng.randint(0, 1)] for r in sol]
                sol = [r for r in sol if len(r) > 2 and (r[0] != SOURCE or r[-1] != SINK)][:1]
                if not sol:
                    continue
            s["preassignments"] = sol
            if kind == "full" and rng.random() < 0.3:
                case["history"] = [G.solve_options(rng, cspy=False if "pd" in f else None)]
            if kind == "full" and rng.random() < 0.15 and not f & {"tw", "pd", "sdc", "mixed", "fleet", "drop"}:
                s["heuristic_only"] = True
            return case

    def judge(self, case):
        r = Constraint.judge(self, case)
        if case["mode"] == "finding" and r["verdict"] == "violation":
            if all(case["expected_message"] in x for x in r["msgs"]):
                r["finding"] = case["finding"]
        return r

    def free_bound(self, m, o, case, part):
        """The edges of an incomplete route are free: the relaxation is the one of the problem with these costs."""
        kind, vals = exact_class(m, case["solve"]), o.relaxed
        if not kind or not vals or case["mode"] != "locked-partial":
            return []
        g = json.loads(json.dumps(case["graph"]))
        on = set(zip(part[:-1], part[1:]))
        for e in g["edges"]:
            if (M.tup(e[0]), M.tup(e[1])) in on:
                e[2]["cost"] = 0 if m.K == 1 else [0] * m.K
        f = M.Model(g, case["params"])
        try:
            st, lb, _ = ref.solve_ref(f, f.best_per_set(20000), False, "ge")
        except RuntimeError:
            return []
        tol = 2e-3 * (len(m.customers) + 2)
        if st == 1 and (vals[-1] > lb + tol or kind == "eq" and vals[-1] < lb - tol):
            return ["relaxed value %s instead of %s when the edges of %r are free" % (vals[-1], lb, part)]
        return []

    def extra(self, m, o, case):
        msgs = []
        got = [tuple(r) for r in o.out["best_routes"].values()]
        for r in case["solve"]["preassignments"]:
            r = tuple(M.tup(v) for v in r)
            if r[0] == SOURCE and r[-1] == SINK:
                if r not in got:
                    msgs.append("locked route %r is not in the solution" % (r,))
            elif case["mode"] == "locked-partial":
                msgs += self.free_bound(m, o, case, r)
            elif not any(r == x[i:i + len(r)] for x in got for i in range(len(x))):
                msgs.append("preassigned part %r is not in the solution" % (r,))
        return msgs

    def nontrivial(self, m, o):
        return len(m.customers) >= 3


@prop("C14")
class Heuristic(Constraint):
    allow = ["cap", "cap", "stops", "stops", "dur", "dur", "fixed"]
    oracles = (O.coverage, O.load, O.stops, O.duration, O.accounting)
    quick = 3000
    thorough = 40000
    big = 600
    p = 0.5
    rule = ("seeded random problems (capacity, stops, duration, fixed costs; 1 to 25 customers) solved with "
            "heuristic_only; non-trivial: at least one route merges customers and at least one path of the graph is "
            "infeasible or the graph is larger than 8 customers")

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        n = rng.randint(8, 25) if kind == "big" else rng.randint(1, 7)
        f = G.pick_features(rng, (), self.allow, self.p)
        g, par = G.compose(rng, f, n=n, style="int" if n > 9 else None)
        s = {"heuristic_only": True}
        case = {"graph": g, "params": par, "solve": s, "seed": rng.randrange(10 ** 6), "features": sorted(f),
                "mode": "heuristic"}
        if rng.random() < 0.15:
            case["history"] = [{"heuristic_only": True}]
        return case

    def nontrivial(self, m, o):
        return any(len(r) > 3 for r in o.out["best_routes"].values())


# --------------------------------------------------------------------------
UNMET = 1e9  # relaxed values above this pay vrpy's penalty for vehicles which do not exist


class Quality(Prop):
    """Base of the properties that compare best_value with references."""

    quick = 300
    thorough = 4000

    def run_checked(self, case, bound=False):
        """With `bound`, runs which end without an integer solution (limited fleet) are judged by their relaxed values."""
        m = M.Model(case["graph"], case["params"])
        o = R.run_case(case, self.case_timeout)
        obs = observe(m, o, case)
        if o.status == "timeout":
            return m, o, obs, result(case, "inconclusive", reason="watchdog", obs=obs)
        if o.status == "exception":
            u = unexpected(m, o)
            if u:
                return m, o, obs, result(case, "violation", [u], obs=obs)
            if bound and o.relaxed:
                return m, o, obs, None
            return m, o, obs, result(case, "inconclusive", reason="reported infeasible", obs=obs)
        return m, o, obs, None


@prop("C15")
class Sandwich(Quality):
    technique = ("runtime monitor: returned value against the optimum over all enumerated feasible routes (never "
                 "below) and against round trips and the heuristic's own solution (never above)")
    rule = ("seeded random small problems x pricing options x calling modes; non-trivial: the optimum is strictly "
            "below the round-trip solution")
    quick = 400

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        if kind == "heuristic":  # hardly any time to improve on the initial routes
            case = W.scenario(rng, (rng.choice(["cap", "cap", "stops", "dur"]),), ["cap", "stops", "dur", "fixed"], p=0.2,
                              modes=["maxiter"], n=rng.randint(4, 9), density=rng.choice([1.0, 1.0, 0.8]),
                              opts={"cspy": True, "max_iter": 1})
            case["solve"]["max_iter"] = 1
            return case
        return W.scenario(rng, (), ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "drop", "periodic",
                                    "fleet"], modes=["plain"] * 6 + ["maxiter", "dive", "again", "clock"])

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("std", n), ("heuristic", 500 if tier == "quick" else 5000)]

    def judge(self, case):
        m, o, obs, r = self.run_checked(case)
        if r:
            return r
        v = o.out["best_value"]
        msgs = []
        st, lo, best = None, None, None
        try:
            best = m.best_per_set(20000)
            st, lo, _ = ref.solve_ref(m, best, True, "eq")
        except RuntimeError:  # too many routes
            if case["job"][1] != "heuristic":
                return result(case, "inconclusive", reason="too many routes", obs=obs)
        if st == 1:
            obs["reference_optima"] = 1
            if close(v, lo):
                obs["returned_optimum"] = 1
            if v < lo - 1e-5 * max(1, abs(lo)):
                msgs.append("best_value %s is below the optimum %s over all feasible routes" % (v, lo))
        rt = None
        if best and not m.nveh and not m.pd:
            rt = 0
            for c in m.customers:
                x = [b[0] for (k, s), b in best.items() if s == frozenset([c])]
                x = min(x) if m.K == 1 else max(x)
                f = m.node[c]["frequency"] if m.periodic else 1
                rt += min(x, m.drop) if m.drop else f * x
            if v > rt + 1e-5 * max(1, abs(rt)):
                msgs.append("best_value %s is above the cost %s of round trips" % (v, rt))
        # the other guaranteed upper bound: the stand-alone heuristic
        if not msgs and not m.nveh and not (m.tw or m.pd or m.sdc or m.mixed or m.periodic or m.drop):
            h = R.run_case({"graph": case["graph"], "params": case["params"], "solve": {"heuristic_only": True}}, 20)
            if h.status == "ok":
                obs["heuristic_compared"] = 1
                if v > h.out["best_value"] + 1e-5 * max(1, v):
                    msgs.append("best_value %s is above the value %s of heuristic_only" % (v, h.out["best_value"]))
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=best is None or st == 1 and rt is not None and lo < rt - 1e-6)


# --------------------------------------------------------------------------
def exact_class(m, s):
    """Pricing options for which the bound is exact ('eq'), a lower bound ('le') or not specified (None)."""
    if m.span or m.nveh and m.use_all:
        return None
    if not s.get("cspy", True):
        return "eq"
    if s.get("greedy") or (m.tw and m.duration):
        return None
    return "eq" if s.get("elementary") else "le"


def exact_options(rng, m_like, lp=None):
    while True:
        s = G.solve_options(rng, cspy=False if lp else None)
        if s["cspy"]:
            s.pop("greedy", None)
        return s


@prop("C16")
class Bound(Quality):
    technique = ("online monitor of the master problems at the PuLP boundary; last relaxed value against the LP over "
                 "all enumerated feasible routes")
    rule = ("seeded random small problems x pricing options without interruption; non-trivial: the LP over all routes "
            "is strictly better than round trips; equality expected with LP pricing and with elementary cspy pricing, "
            "'not above' with default cspy pricing")
    quick = 350

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("std", n), ("fraction", n // 8), ("big", n // 8), ("detour", n // 4)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        if kind == "detour":  # wide windows, short days and slow connections back
            case = W.scenario(rng, ("tw",), ["cap", "mixed", "fixed", "sdc"], p=0.2, modes=["plain"], n=rng.choice([2, 3, 4, 5]),
                              density=1.0, opts={"cspy": rng.random() < 0.2})
            if case["solve"]["cspy"]:
                case["solve"].pop("greedy", None)
            A, E = G.attrs(case["graph"]), G.edict(case["graph"])
            for (u, v), a in E.items():
                a["time"] = rng.randint(1, 15) * (rng.choice([1, 1, 4]) if u != SOURCE and v != SINK else 1)
            cust = [v for v in A if v not in (SOURCE, SINK)]
            day = int(max(G.roundtrip_time(case["graph"], v) for v in cust) * rng.choice([1.2, 1.6, 2.5])) + 1
            for v in (SOURCE, SINK):
                A[v].pop("lower", None)
            A[SOURCE]["upper"] = A[SINK]["upper"] = day
            for v in cust:
                A[v]["lower"], A[v]["upper"] = 0, day - E[v, SINK]["time"] - A[v].get("service_time", 0)
            return case
        if kind == "big":  # more customers, but short routes
            while True:
                case = W.scenario(rng, (rng.choice(["cap", "stops"]),), ["cap", "stops", "dur", "tw", "sdc", "mixed", "fixed",
                                                                         "periodic", "drop", "fleet"], p=0.2,
                                  modes=["plain"], n=rng.randint(8, 12), opts={"cspy": True},
                                  density=rng.choice([1.0, 0.6, 0.4]))
                case["solve"].pop("greedy", None)
                if rng.random() < 0.7:
                    case["solve"]["elementary"] = True
                par = case["params"]
                if par.get("num_stops"):
                    par["num_stops"] = rng.choice([1, 2, 3, 3])
                m = M.Model(case["graph"], par)
                if exact_class(m, case["solve"]):
                    try:
                        m.best_per_set(6000)
                    except RuntimeError:
                        continue
                    return case
        if kind == "fraction":  # long routes of customers whose demands are fractions of a unit
            case = W.scenario(rng, ("cap",), ["fixed"], p=0.3, modes=["plain"], n=rng.choice([6, 7, 7]), density=1.0,
                              opts={"cspy": True, "elementary": True})
            A, E = G.attrs(case["graph"]), G.edict(case["graph"])
            for v in A:
                if v not in (SOURCE, SINK):
                    A[v]["demand"] = rng.choice([8, 9, 9, 9]) / 16
                    E[SOURCE, v]["cost"] += 20
            case["params"]["load_capacity"] = rng.choice([3, 4, 4, 5])
            case["solve"].pop("greedy", None)
            return case
        while True:
            case = W.scenario(rng, (), ["cap", "cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "periodic",
                                         "drop", "fleet"], modes=["plain"] * 8 + ["again", "dive"])
            s = case["solve"]
            if s.get("cspy"):
                s.pop("greedy", None)
            m = M.Model(case["graph"], case["params"])
            if exact_class(m, s):
                return case

    def judge(self, case):
        m, o, obs, r = self.run_checked(case, bound=True)
        if r:
            return r
        kind = exact_class(m, case["solve"])
        vals = o.relaxed or [x for x in o.out["lower_bound"]]
        if not vals:
            return result(case, "inconclusive", reason="no relaxed master observed", obs=obs)
        try:
            best = m.best_per_set(20000)
        except RuntimeError:
            return result(case, "inconclusive", reason="too many routes", obs=obs)
        st, lb, _ = ref.solve_ref(m, best, False, "ge")
        if st != 1:
            return result(case, "inconclusive", reason="reference not solved", obs=obs)
        obs["relaxed_values"] = len(vals)
        obs["bound_" + kind] = 1
        x, msgs = vals[-1], []
        # pricing stops at reduced costs above -0.001
        tol = 2e-3 * (len(m.customers) + 2) + 1e-6 * abs(lb)
        if x > lb + tol:
            msgs.append("column generation stopped at %s although the relaxation over all routes is %s (first %s)"
                        % (x, lb, vals[0]))
        if kind == "eq" and x < lb - tol:
            msgs.append("relaxed value %s is below the relaxation %s over all feasible routes" % (x, lb))
        rt = sum(min([b[0] for (k, s), b in best.items() if s == frozenset([c])] or [0])
                 * (m.node[c]["frequency"] if m.periodic else 1) for c in m.customers)
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=lb < rt - 1e-6)


@prop("C20")
class Monotone(Quality):
    technique = "online monitor of the sequence of master problems at the PuLP boundary"
    rule = ("seeded random problems (up to 14 customers) x pricing options x calling modes; non-trivial: at least "
            "three relaxed master problems and at least one strict decrease were observed")
    quick = 500

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("std", n), ("big", n // 25)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        allow = ["cap", "cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "periodic", "fleet", "drop"]
        if kind == "big":
            return W.big_scenario(rng, (), allow)
        return W.scenario(rng, (), allow, modes=["plain"] * 6 + ["initial", "maxiter", "again", "dive"])

    def judge(self, case):
        m, o, obs, r = self.run_checked(case)
        if r:
            return r
        vals, msgs = o.relaxed, []
        if not vals:
            return result(case, "ok", reason="nothing observed", obs=obs)
        if case.get("clock"):
            # CBC may be stopped early when little time is left: such values mean nothing
            vals = [e["obj"] for e in o.masters if not e["final"] and not e["dive"] and e["status"] == 1
                    and e["obj"] is not None and (e["limit"] is None or e["limit"] > 10)]
        obs["relaxed_values"] = len(vals)
        drops = 0
        for a, b in zip(vals[:-1], vals[1:]):
            if b > a + 1e-5 * max(1, abs(a)):
                msgs.append("relaxed value rises from %s to %s" % (a, b))
            drops += b < a - 1e-6
        obs["strict_decreases"] = drops
        last = [e for e in o.masters if not e["final"] and not e["dive"]][-1:]
        fin = [e for e in o.masters if e["final"]][-1:]
        same = last and fin and last[0]["nvars"] == fin[0]["nvars"]  # no column was added in between
        obs["final_compared"] = int(bool(same))
        if same and vals and not msgs and not m.nveh and o.out["best_value"] < vals[-1] - 1e-5 * max(1, abs(vals[-1])):
            msgs.append("best_value %s is below the last relaxed value %s" % (o.out["best_value"], vals[-1]))
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=len(vals) >= 3 and drops)


# --------------------------------------------------------------------------
@prop("C17")
class Interrupt(Constraint):
    technique = ("fault injection on the clock and iteration limits; monitors on the master problems, on the limits "
                 "handed to CBC and cspy, and on the returned solution")
    allow = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "fleet", "drop", "periodic"]
    oracles = (O.all_constraints, O.accounting)
    quick = 600
    big = 30
    rule = ("seeded random problems x pricing options x (iteration limit 1 to 5, or time limit with a clock that "
            "drifts or jumps past the limit at the k-th reading); non-trivial: column generation was cut off before "
            "it converged (fewer iterations than the uninterrupted run needs, or time ran out)")

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        modes = ["maxiter", "clock", "clock"]
        if kind == "big":
            allow = [a for a in self.allow if a != "pd"]
            return W.scenario(rng, (), allow, modes=modes, n=rng.randint(8, 14), opts={"cspy": True})
        case = W.scenario(rng, (), self.allow, modes=modes)
        if rng.random() < 0.15:
            case["solve"]["dive"] = True
        if case["mode"] == "clock" and rng.random() < 0.25:
            case["starve"] = True
        elif case["mode"] == "clock" and rng.random() < 0.4:
            case["clock"] = {"slow": rng.choice([3, 4, 7])}
            case["solve"]["time_limit"] = rng.choice([10, 15, 25])
        return case

    def extra(self, m, o, case):
        s, msgs = case["solve"], []
        relaxed = [e for e in o.masters if not e["final"]]
        if s.get("max_iter") and not s.get("dive"):
            if len(relaxed) > s["max_iter"]:
                msgs.append("%s iterations with max_iter = %s" % (len(relaxed), s["max_iter"]))
        elif s.get("max_iter"):
            rounds, last = 0, None  # rounds of pricing, separated by master problems
            for e in o.events:
                kind = "master" if e["name"] == "MasterProblem" else "pricing"
                rounds += kind == "pricing" and last == "master"
                last = kind
            if m.periodic and o.events and o.events[-1]["name"] != "MasterProblem":
                rounds -= 1  # the schedule
            if rounds > s["max_iter"] + 1:
                msgs.append("%s iterations with max_iter = %s, diving included" % (rounds, s["max_iter"]))
        tl = s.get("time_limit")
        if tl:
            late = [e for e in relaxed if e["clock"] > tl + 1 and not e["dive"]]
            if len(late) > (4 if s.get("dive") else 1):
                msgs.append("%s iterations started more than a second after the limit of %s s" % (len(late), tl))
            for e in o.events:
                if e["name"] == "cspy" and e["limit"] is None:
                    msgs.append("a search for routes started at %.1f s without a time limit (limit %s s)" % (e["clock"], tl))
                    break
            if case.get("clock", {}).get("slow"):
                msgs += self.stale(o, tl)
            for e in o.masters:
                if e["dive"] or e["final"] and case.get("starve"):
                    continue  # copies solved by the diving heuristic; looks for a first solution after the limit
                if e["limit"] is None:
                    msgs.append("a master problem started at %.1f s without a time limit (limit %s s)" % (e["clock"], tl))
                    break
                if e["limit"] > max(5, tl) + 1e-6:
                    msgs.append("a master problem may run for %s s with a limit of %s s" % (e["limit"], tl))
                    break
        return msgs or self.early(m, o, s)

    def early(self, m, o, s):
        """Stopping before a limit is reached requires that no route is missing."""
        vals, fin, tl = o.relaxed, [e for e in o.masters if e["final"]], s.get("time_limit")
        if not vals or not fin or s.get("dive") or self.case.get("starve") or not exact_class(m, s) or self.case.get("history"):
            return []
        if s.get("max_iter") and len(vals) >= s["max_iter"] or tl and fin[-1]["clock"] > tl - 2:
            return []
        try:
            best = m.best_per_set(8000)
        except RuntimeError:
            return []
        st, lb, _ = ref.solve_ref(m, best, False, "ge")
        tol = 2e-3 * (len(m.customers) + 2) + 1e-6 * abs(lb or 0)
        if st == 1 and vals[-1] > lb + tol:
            return ["the search stopped after %s iterations and %.1f s (limits: %s, %s s) at %s, not at the optimum %s of "
                    "the relaxation" % (len(vals), fin[-1]["clock"], s.get("max_iter"), tl, vals[-1], lb)]
        return []

    def stale(self, o, tl):
        """Time passes during searches and master problems only: each limit is what remained when it started."""
        dives = self.case["solve"].get("dive")
        for e in o.events:
            # diving solves its relaxations again with the limit of the first of them
            if e["dive"] or dives and e["name"] == "MasterProblem" and not e["final"]:
                continue
            left = max(tl - e["clock"], 0.0)
            if e["final"] or e["name"] not in ("MasterProblem", "cspy") and e is o.events[-1]:
                left = max(left, 5)
            if e["limit"] is None or e["limit"] > left + 1.5:
                return ["%s started at %.1f s with a limit of %s s although %.1f s of %s s remained"
                        % ("a master problem" if e["name"] == "MasterProblem" else "a search", e["clock"], e["limit"],
                           left, tl)]
        return []

    def judge(self, case):
        self.case = case
        return Constraint.judge(self, case)

    def nontrivial(self, m, o):
        s = self.case["solve"]
        if s.get("max_iter"):
            return len([e for e in o.masters if not e["final"]]) >= s["max_iter"]
        return any(e["clock"] > s["time_limit"] for e in o.events)


# --------------------------------------------------------------------------
def values_differ(a, b):
    return (a is None) != (b is None) or a is not None and not close(a, b, 1e-6)


def snapshot(G):
    return ({v: R._copy(dict(d)) for v, d in G.nodes(data=True)},
            {(u, v): R._copy(dict(d)) for u, v, d in G.edges(data=True)})


@prop("C18")
class Histories(Prop):
    technique = ("history monitor: the same problem solved by a fresh object and by an object with a past (other "
                 "options, failures, other problems on the same graph); outputs and inputs compared")
    rule = ("seeded random problems x histories of one to three earlier calls (other options, interrupted calls, "
            "calls that raise, other problem objects on the same graph, reads of the results); non-trivial: two fresh "
            "runs agree with each other, so that a difference is due to the history")
    quick = 300
    thorough = 4000
    case_timeout = 40

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        allow = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "fleet", "drop", "periodic"]
        f = G.pick_features(rng, (), allow, 0.35)
        g, par = G.compose(rng, f, n=rng.randint(2, 5) if "pd" not in f else rng.choice([2, 4]))
        m = M.Model(g, par)
        strategies = ["Exact", "BestEdges1", "BestEdges2", "BestPaths"]

        def opts():
            s = G.solve_options(rng, cspy=False if "pd" in f else None, strategies=strategies, greedy=False)
            if rng.random() < 0.2:
                s["max_iter"] = rng.choice([1, 2])
            if rng.random() < 0.15:
                s["dive"] = True
            return s

        def locks():
            sol, _ = W.random_partition(rng, m, W.feasible_routes(m), 1)
            return sol

        hist = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = opts()
            x = rng.random()
            if x < 0.15:
                s["pricing_strategy"] = "nope"
            elif x < 0.3 and locks():
                s["preassignments"] = locks()
            elif x < 0.4:
                s["heuristic_only"] = True
            elif x < 0.5:
                s["initial_routes"] = [[SOURCE, v, SINK] for v in m.customers]
            elif x < 0.6:
                s["pricing_strategy"] = "Hyper"
            elif x < 0.7:
                s["greedy"] = True
            elif x < 0.75:
                s["preassignments"] = [[SOURCE, "nowhere", SINK]]
            elif x < 0.8:
                s["initial_routes"] = [[SOURCE, SINK]]
            hist.append(s)
        last = opts()
        if rng.random() < 0.15 and locks() and "fleet" not in f and "periodic" not in f:
            last["preassignments"] = locks()
        if rng.random() < 0.1 and not f & {"tw", "pd", "sdc", "mixed", "periodic"}:
            last = {"heuristic_only": True}
        case = {"graph": g, "params": par, "solve": last, "history": hist, "seed": rng.randrange(10 ** 6),
                "features": sorted(f), "mode": "history"}
        if rng.random() < 0.3:  # another problem on the same graph object
            f2 = {x for x in f if x in ("mixed", "tw", "sdc", "pd")} | {"cap" if "cap" in f else "stops"}
            case["sibling"] = {k: v for k, v in par.items()
                               if k in ("mixed_fleet", "load_capacity", "time_windows", "distribution_collection",
                                        "pickup_delivery", "num_stops")}
            if "mixed" in f and "load_capacity" not in par:
                del case["sibling"]
        return case

    def judge(self, case):
        from vrpy import VehicleRoutingProblem
        m = M.Model(case["graph"], case["params"])
        fresh = {k: v for k, v in case.items() if k != "history"}
        a = R.run_case(fresh, self.case_timeout)
        obs = observe(m, a, case)
        if a.status == "timeout":
            return result(case, "inconclusive", reason="watchdog", obs=obs)
        msgs = []
        Gr = R.build_graph(case["graph"])
        par = R.fresh_params(case["params"])
        last = R.fresh_solve(case["solve"])
        given = R._copy(last)
        par0 = R._copy(par)
        sib = None
        try:
            prob = VehicleRoutingProblem(Gr, **par)
            if "sibling" in case:
                sib = VehicleRoutingProblem(Gr, **R.fresh_params(case["sibling"]))
        except Exception as e:
            return result(case, "inconclusive", reason="constructor: %s" % e, obs=obs)
        before = snapshot(Gr)
        if sib is not None:
            s2 = {"cspy": False} if sib.pickup_delivery else {}
            R.run_case({"graph": case["graph"], "params": {}, "solve": s2}, 30, prob=sib)
        o = R.run_case({"graph": case["graph"], "params": par, "solve": last, "history": case["history"],
                        "seed": case["seed"]}, self.case_timeout * 2, prob=prob, G=Gr)
        if o.status == "timeout":
            return result(case, "inconclusive", reason="watchdog", obs=obs)
        obs["earlier_calls_ok"] = o.history.count("ok")
        obs["earlier_calls_raised"] = len(o.history) - o.history.count("ok")
        obs["sibling"] = int(sib is not None)
        after = snapshot(Gr)
        if before != after:
            diff = [v for v in after[0] if after[0].get(v) != before[0].get(v)] + \
                   [e for e in set(after[1]) | set(before[1]) if after[1].get(e) != before[1].get(e)]
            msgs.append("solve() changed the user's graph at %r" % (diff[:4],))
        if par != par0:
            msgs.append("the lists given to the constructor changed: %r -> %r" % (par0, par))
        # solve() again with the very same option objects
        if last != given:
            msgs.append("the options given to solve() changed: %r -> %r" % (given, last))
        b = R.run_case(fresh, self.case_timeout)
        stable = a.status == b.status and a.exc == b.exc and not values_differ(
            a.out.get("best_value"), b.out.get("best_value"))
        if not stable and not msgs:
            return result(case, "inconclusive", reason="two fresh runs differ", obs=obs)
        if stable:
            if o.status != a.status:
                msgs.append("with this history: %s %s %s; fresh: %s %s" % (o.status, o.exc, o.msg, a.status, a.msg))
            elif o.status == "ok":
                if values_differ(a.out["best_value"], o.out["best_value"]):
                    # the heuristics iterate over sets: allow for ties resolved differently, never for other results
                    vals = [a.out["best_value"], b.out["best_value"]]
                    for _ in range(6):
                        c = R.run_case(fresh, self.case_timeout)
                        vals.append(c.out.get("best_value"))
                    if all(v is None or values_differ(v, o.out["best_value"]) for v in vals):
                        if len({round(v, 6) for v in vals if v is not None}) == 1:
                            msgs.append("best_value %s with this history, %s from a fresh object (8 runs)"
                                        % (o.out["best_value"], vals[0]))
                        else:
                            return result(case, "inconclusive", reason="fresh runs differ", obs=obs)
                for f in (O.all_constraints, O.accounting, O.reports):
                    if not (case["solve"].get("heuristic_only") and m.nveh):
                        msgs += f(m, o, case)
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, nontrivial=stable,
                      sig=signature(m, a, case) + "|" + str(o.history))


# --------------------------------------------------------------------------
@prop("C21")
class Options(Quality):
    technique = ("differential monitor: last relaxed master value (PuLP boundary) of the same problem under two "
                 "different sets of pricing options")
    rule = ("seeded random problems (5 to 8 customers) solved twice with different pricing engines and strategies for "
            "which the bound is exact; non-trivial: the two option sets differ in engine or strategy and columns were "
            "generated")
    quick = 200
    thorough = 2500
    case_timeout = 60

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        while True:
            f = G.pick_features(rng, (), ["cap", "cap", "stops", "dur", "tw", "sdc", "mixed", "fixed", "periodic",
                                          "fleet"], 0.35)
            g, par = G.compose(rng, f, n=rng.randint(4, 7), density=rng.choice([1.0, 0.6, 0.4]))
            m = M.Model(g, par)
            opts = []
            for _ in range(2):
                s = G.solve_options(rng, elementary=True)
                if s["cspy"]:
                    s.pop("greedy", None)
                opts.append(s)
            if all(exact_class(m, s) == "eq" for s in opts) and any(
                    opts[0].get(k) != opts[1].get(k) for k in ("cspy", "pricing_strategy", "greedy")):
                return {"graph": g, "params": par, "solve": opts[0], "other": opts[1], "features": sorted(f),
                        "mode": "options", "seed": rng.randrange(10 ** 6)}

    def judge(self, case):
        m, o, obs, r = self.run_checked(case, bound=True)
        if r:
            return r
        m, o2, obs2, r = self.run_checked(dict(case, solve=case["other"]), bound=True)
        if r:
            return r
        a, b = o.relaxed, o2.relaxed
        if not a or not b:
            return result(case, "inconclusive", reason="no relaxed master observed", obs=obs)
        for k, v in obs2.items():
            obs[k] = obs.get(k, 0) + v
        tol = 4e-3 * (len(m.customers) + 2) + 1e-6 * abs(a[-1])
        msgs = []
        if max(a[-1], b[-1]) > UNMET:
            if min(a[-1], b[-1]) < UNMET:
                msgs.append("the fleet is sufficient for the relaxation with one of %s (%s) and %s (%s) only"
                            % (case["solve"], a[-1], case["other"], b[-1]))
        elif abs(a[-1] - b[-1]) > tol:
            msgs.append("column generation ends at %s with %s and at %s with %s" % (a[-1], case["solve"], b[-1], case["other"]))
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=len(a) + len(b) > 2)


@prop("C22")
class Symmetry(Quality):
    technique = ("metamorphic monitor: last relaxed master value (PuLP boundary) and value range of a problem and of "
                 "its copy with renamed customers, permuted insertion order, or rescaled costs, times and loads")
    rule = ("seeded random problems (3 to 6 customers) against a transformed copy; non-trivial: columns were generated "
            "beyond the initial ones")
    quick = 200
    thorough = 2500
    case_timeout = 40

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("std", n), ("unit", n // 3)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        while True:
            f = G.pick_features(rng, (), ["cap", "cap", "stops", "dur", "tw", "sdc", "mixed"] if kind == "unit" else
                                ["cap", "cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "periodic", "fleet"],
                                0.35)
            n = rng.randint(3, 6) if "pd" not in f else 4
            g, par = G.compose(rng, f, n=n + 1 if kind == "unit" else n, style="int")
            m = M.Model(g, par)
            s = G.solve_options(rng, elementary=True, cspy=False if "pd" in f else True if kind == "unit" else None)
            if s["cspy"]:
                s.pop("greedy", None)
            if exact_class(m, s) != "eq":
                continue
            how = rng.sample(["rename", "permute", "cost", "time", "load", "types"], rng.choice([1, 1, 2]))
            if kind == "unit":  # large units: small costs
                how = ["cost"]
            scale = rng.choice([0.0625, 0.03125]) if kind == "unit" else rng.choice([3, 3, 100] if "fixed" in f else [3, 0.0625, 0.0625, 100]) if "cost" in how else 1
            g2, par2 = transform(rng, g, par, how, scale)
            return {"graph": g, "params": par, "solve": s, "graph2": g2, "params2": par2, "how": how, "scale": scale, "features": sorted(f), "mode": "symmetry",
                    "seed": rng.randrange(10 ** 6)}

    def judge(self, case):
        m, o, obs, r = self.run_checked(case, bound=True)
        if r:
            return r
        m2, o2, obs2, r = self.run_checked(dict(case, graph=case["graph2"], params=case["params2"]), bound=True)
        if r:
            return r
        for h in case["how"]:
            obs["transform_" + h] = 1
        a, b = o.relaxed, o2.relaxed
        if not a or not b:
            return result(case, "inconclusive", reason="no relaxed master observed", obs=obs)
        x = a[-1] * case["scale"]
        # pricing stops at reduced costs above -0.001, whatever the unit
        tol = 2e-3 * (len(m.customers) + 2) * (case["scale"] + 1) + 1e-6 * abs(x)
        msgs = []
        if max(a[-1], b[-1]) > UNMET:
            if min(a[-1], b[-1]) < UNMET:
                msgs.append("the fleet is sufficient for the relaxation (%s) before or after '%s' only (%s)"
                            % (a[-1], "+".join(case["how"]), b[-1]))
        elif abs(x - b[-1]) > tol:
            msgs.append("column generation ends at %s, after '%s' at %s (expected %s)"
                        % (a[-1], "+".join(case["how"]), b[-1], x))
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=len(a) > 1)


def transform(rng, g, par, how, scale=1):
    """A problem with the same solutions (costs scaled by `scale` if 'cost' is in how)."""
    import copy
    g, par = copy.deepcopy(g), copy.deepcopy(par)
    cust = [v for v, _ in g["nodes"] if v not in (SOURCE, SINK)]
    if "rename" in how:
        names = G.node_names(rng, len(cust), rng.choice(["shuffled", "str", "letters", "zero", "spaces", "signed", "long",
                                                        "sourcelike"])) if len(cust) <= 9 else cust
        rng.shuffle(names)
        mp = dict(zip(cust, names))
        mp[SOURCE], mp[SINK] = SOURCE, SINK
        for nd in g["nodes"]:
            nd[0] = mp[nd[0]]
            if "request" in nd[1]:
                nd[1]["request"] = mp[nd[1]["request"]]
        for e in g["edges"]:
            e[0], e[1] = mp[e[0]], mp[e[1]]
    if "permute" in how:
        rng.shuffle(g["nodes"])
        rng.shuffle(g["edges"])
    if "cost" in how:
        for e in g["edges"]:
            c = e[2]["cost"]
            e[2]["cost"] = [scale * x for x in c] if isinstance(c, list) else scale * c
        if par.get("fixed_cost"):
            c = par["fixed_cost"]
            par["fixed_cost"] = [scale * x for x in c] if isinstance(c, list) else scale * c
    if "time" in how:
        z = rng.choice([2, 2, 60])
        for e in g["edges"]:
            if "time" in e[2]:
                e[2]["time"] = z * e[2]["time"]
        for _, a in g["nodes"]:
            for k in ("service_time", "lower", "upper"):
                if k in a:
                    a[k] = z * a[k]
        if par.get("duration"):
            par["duration"] = z * par["duration"]
    if "load" in how:
        z = rng.choice([2, 2, 100])
        for _, a in g["nodes"]:
            for k in ("demand", "collect"):
                if k in a:
                    a[k] = z * a[k]
        c = par.get("load_capacity")
        if c:
            par["load_capacity"] = [z * x for x in c] if isinstance(c, list) else z * c
    if "types" in how and par.get("mixed_fleet"):
        K = len(par.get("load_capacity") or par.get("fixed_cost") or par.get("num_vehicles"))
        order = rng.sample(range(K), K)
        for e in g["edges"]:
            e[2]["cost"] = [e[2]["cost"][k] for k in order]
        for key in ("load_capacity", "fixed_cost", "num_vehicles"):
            if isinstance(par.get(key), list):
                par[key] = [par[key][k] for k in order]
    return g, par


@prop("C27")
class Loosen(Quality):
    technique = ("metamorphic monitor: last relaxed master value (PuLP boundary) of a problem and of the same problem with "
                 "one limit loosened or one cost lowered")
    rule = ("seeded random problems (up to 14 customers) solved with exact pricing options before and after one "
            "limit (capacity, stops, duration, fleet, time windows), travel time, demand, frequency, cost or missing "
            "connection is relaxed; non-trivial: the bound changes")
    quick = 200
    thorough = 2500
    case_timeout = 60

    def kinds(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return [("std", n), ("big", n // 2)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        while True:
            big = kind == "big"
            f = G.pick_features(rng, (), ["cap", "cap", "stops", "dur", "tw", "sdc", "mixed", "fixed", "periodic", "fleet",
                                          "drop"] + ([] if big else ["pd"]), 0.3)
            n = rng.randint(8, 14) if big else 4 if "pd" in f else rng.randint(3, 7)
            g, par = G.compose(rng, f, n=n, density=rng.choice([1.0, 0.6, 0.4]), style="int")
            m = M.Model(g, par)
            s = G.solve_options(rng, elementary=True, cspy=False if "pd" in f else True if n > 6 else None)
            if s["cspy"]:
                s.pop("greedy", None)
            if exact_class(m, s) != "eq":
                continue
            if big and not f & {"cap", "stops", "dur", "tw"}:
                continue
            how, g2, par2 = loosen(rng, g, par)
            return {"graph": g, "params": par, "solve": s, "graph2": g2, "params2": par2, "how": how,
                    "features": sorted(f), "mode": "loosen", "seed": rng.randrange(10 ** 6)}

    def judge(self, case):
        m, o, obs, r = self.run_checked(case, bound=True)
        if r:
            return r
        m2, o2, obs2, r = self.run_checked(dict(case, graph=case["graph2"], params=case["params2"]), bound=True)
        if r:
            if r["reason"] == "reported infeasible":
                return result(case, "inconclusive", reason=r["reason"], obs=obs)
            return r
        obs["loosened_" + case["how"]] = 1
        a, b = o.relaxed, o2.relaxed
        if not a or not b:
            return result(case, "inconclusive", reason="no relaxed master observed", obs=obs)
        tol = 2e-3 * (len(m.customers) + 2) + 1e-6 * abs(a[-1])
        msgs = []
        if b[-1] > a[-1] + tol:
            msgs.append("column generation ends at %s, and at %s when the problem is made easier (%s)"
                        % (a[-1], b[-1], case["how"]))
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=b[-1] < a[-1] - tol)


def loosen(rng, g, par):
    """A problem of which every solution of (g, par) is a solution, at most as expensive."""
    import copy
    g, par = copy.deepcopy(g), copy.deepcopy(par)
    A, E = G.attrs(g), G.edict(g)
    cust = [v for v in A if v not in (SOURCE, SINK)]
    pd = par.get("pickup_delivery")
    each = lambda x, f: [f(y) for y in x] if isinstance(x, list) else f(x)
    todo = ["cost", "edge", "time"]
    for key in ("load_capacity", "num_stops", "duration", "num_vehicles", "fixed_cost", "drop_penalty"):
        if par.get(key):
            todo += [key] * 2
    if par.get("time_windows"):
        todo += ["windows"] * 2
    if par.get("load_capacity") and not pd:
        todo.append("demand")
    if par.get("periodic") and not pd:
        todo.append("frequency")
    how = rng.choice(todo)
    if how == "load_capacity":
        par[how] = each(par[how], lambda x: x + rng.choice([1, 2, 5, 10]))
    elif how == "num_stops":
        par[how] += rng.choice([1, 1, 2])
    elif how == "duration":
        par[how] += rng.choice([1, 5, 20])
    elif how == "num_vehicles":
        par[how] = each(par[how], lambda x: x + rng.choice([1, 1, 2]))
    elif how == "fixed_cost":
        par[how] = each(par[how], lambda x: x // 2) if isinstance(par[how], list) else max(1, par[how] // 2)
        if isinstance(par[how], list) and not any(par[how]):
            del par[how]
    elif how == "drop_penalty":
        par[how] = max(1, par[how] // 2)
    elif how == "windows":
        for v in cust:
            if rng.random() < 0.5 and "upper" in A[v]:
                A[v]["upper"] += rng.choice([1, 5, 20])
                A[v]["lower"] = max(0, A[v].get("lower", 0) - rng.choice([0, 0, 5]))
        if "upper" in A[SINK] and rng.random() < 0.3:
            A[SINK]["upper"] += 10
    elif how == "demand":
        for v in rng.sample(cust, rng.randint(1, len(cust))):
            for k in ("demand", "collect"):
                if A[v].get(k, 0) >= 1 and rng.random() < 0.7:
                    A[v][k] -= 1
    elif how == "frequency":
        for v in cust:
            if A[v].get("frequency", 1) > 1 and rng.random() < 0.5:
                A[v]["frequency"] -= 1
    elif how == "time":
        for e in g["edges"]:
            if "time" in e[2] and rng.random() < 0.4:
                e[2]["time"] = e[2]["time"] / 2
    elif how == "cost":
        q = rng.choice([0.1, 0.5])
        for e in g["edges"]:
            if rng.random() < q:
                e[2]["cost"] = each(e[2]["cost"], lambda x: x / 2)
    elif how == "edge":
        miss = [(u, v) for u in cust for v in cust if u != v and (u, v) not in E]
        rng.shuffle(miss)
        c0 = g["edges"][0][2]
        for u, v in miss[:rng.choice([1, 3, 10])]:
            d = {"cost": rng.randint(1, 20), "time": rng.randint(0, 20)}
            if isinstance(c0["cost"], list):
                d["cost"] = [d["cost"] + rng.randint(0, 2) for _ in c0["cost"]]
            if "time" not in c0:
                d.pop("time")
            g["edges"].append([u, v, d])
    return how, g, par


@prop("C23")
class InitialRoutes(Constraint):
    allow = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "drop", "periodic"]
    oracles = (O.all_constraints, O.accounting)
    quick = 500
    big = 0
    rule = ("seeded random problems x random feasible solutions handed over as initial routes (also with additional "
            "routes) x pricing options, iteration limits 0 to 3; non-trivial: the given solution is not optimal")

    def kinds(self, tier):
        return [("std", self.quick if tier == "quick" else self.thorough)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        while True:
            case = W.scenario(rng, (), self.allow, modes=["initial"])
            if case["solve"].get("initial_routes"):
                if rng.random() < 0.4:
                    case["solve"]["max_iter"] = rng.choice([1, 1, 2, 3])
                if rng.random() < 0.1:
                    case["solve"]["dive"] = True
                return case

    def given(self, m, case):
        """Cost of the best solution made of the given routes, each with its cheapest feasible vehicle type."""
        best = {}
        for r in case["solve"]["initial_routes"]:
            r = [M.tup(v) for v in r]
            ks = [k for k in range(m.K) if not m.route_errors(r, k)]
            if not ks:
                continue
            c = max(m.cost(r, k) for k in ks)  # whichever feasible type it is assigned to
            key = (0, frozenset(r[1:-1]))
            if key not in best or c < best[key][0]:
                best[key] = (c, r)
        return ref.solve_ref(m, best, True, "eq")[:2]

    def extra(self, m, o, case):
        st, c = self.given(m, case)
        if st == 1 and o.out["best_value"] > c + 1e-5 * max(1, abs(c)):
            return ["best_value %s is worse than the given solution of cost %s" % (o.out["best_value"], c)]
        self.improved = st == 1 and o.out["best_value"] < c - 1e-6
        return []

    def nontrivial(self, m, o):
        return getattr(self, "improved", False)


@prop("C24")
class Selection(Quality):
    technique = ("monitor of all columns handed to the master problem (PuLP boundary); returned value against an "
                 "independent optimisation over the same columns")
    rule = ("seeded random problems x pricing options x calling modes without time limits; non-trivial: at least two "
            "different selections of the observed columns are feasible (more columns than selected)")
    quick = 500

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        return W.scenario(rng, (), ["cap", "cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "drop",
                                    "periodic", "fleet", "useall"],
                          modes=["plain"] * 6 + ["initial", "maxiter", "dive", "dive", "again"])

    def judge(self, case):
        m, o, obs, r = self.run_checked(case)
        if r:
            return r
        cols = O.columns(m, o)
        if not cols:
            return result(case, "ok", reason="no columns observed", obs=obs)
        best = {}
        for S, cost, k in cols:
            key = (k or 0, S)
            if key not in best or cost < best[key][0]:
                best[key] = (cost, None)
        if m.nveh and any(k is None for _, _, k in cols):
            return result(case, "ok", reason="types not observed", obs=obs)
        st, lo, _ = ref.solve_ref(m, best, True, "eq")
        msgs = []
        if st == 1 and o.out["best_value"] > lo + 1e-5 * max(1, abs(lo)):
            msgs.append("best_value %s although the generated routes allow for %s" % (o.out["best_value"], lo))
        if st == 1 and not close(o.out["best_value"], lo, 1e-5) and o.out["best_value"] < lo:
            msgs.append("best_value %s cannot be reached with the generated routes (%s)" % (o.out["best_value"], lo))
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case),
                      nontrivial=st == 1 and len(best) > len(o.out["best_routes"]))


@prop("C26")
class Termination(Prop):
    technique = ("monitor of the master problems (PuLP boundary): number of iterations against the number of distinct "
                 "feasible routes, watchdog on the wall clock")
    rule = ("seeded random problems (2 to 5 customers) of every type, tight fleets included, x pricing engines that only "
            "return elementary routes, without iteration or time limit; non-trivial: at least three iterations")
    quick = 500
    thorough = 6000
    case_timeout = 20

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        s = {"elementary": True}
        case = W.scenario(rng, ("fleet",) if rng.random() < 0.5 else (), W.ALL + ["mixed", "useall"],
                          modes=["plain"] * 5 + ["initial", "again", "dive"], n=rng.randint(2, 5), opts=s)
        return case

    def judge(self, case):
        m = M.Model(case["graph"], case["params"])
        o = R.run_case(case, self.case_timeout)
        obs = observe(m, o, case)
        n = len([e for e in o.masters if not e["final"]])
        obs["iterations"] = n
        try:
            most = sum(len(m.all_routes(k, 4000)) for k in range(m.K))
        except RuntimeError:
            return result(case, "inconclusive", reason="too many routes", obs=obs)
        # diving solves up to two more problems per iteration and is repeated at most four times
        most += 5 + 20 * bool(case["solve"].get("dive"))
        msgs = []
        if n > most:
            msgs.append("%s iterations (%s) although there are only %s routes" % (n, o.status, most))
        elif o.status == "timeout":
            return result(case, "inconclusive", reason="watchdog", obs=obs)
        elif o.status == "exception" and unexpected(m, o):
            msgs.append(unexpected(m, o))
        elif o.status == "ok":
            pairs = collections.Counter((tuple(sorted(map(repr, c[0]))), c[1], c[2]) for c in o.columns)
            obs["same_customers_and_cost"] = sum(x - 1 for x in pairs.values())
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, sig=signature(m, o, case), nontrivial=n >= 3)


@prop("C25")
class Span(Constraint):
    require = ("span",)
    allow = ["cap", "cap", "stops", "dur", "fixed", "tw", "sdc", "mixed", "fleet", "drop"]
    oracles = (O.all_constraints, O.accounting)
    quick = 200
    thorough = 1500
    big = 0
    case_timeout = 40
    hard = 120
    rule = ("seeded random problems (1 to 5 customers) minimising the largest route cost x pricing options; "
            "non-trivial: at least two routes are returned")

    def kinds(self, tier):
        return [("std", self.quick if tier == "quick" else self.thorough)]

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        f = G.pick_features(rng, ("span",), self.allow, 0.35)
        g, par = G.compose(rng, f, n=rng.randint(1, 5) if rng.random() < 0.7 else rng.randint(6, 8))
        s = G.solve_options(rng, greedy=False)
        return {"graph": g, "params": par, "solve": s, "seed": rng.randrange(10 ** 6), "features": sorted(f),
                "mode": "plain"}

    def extra(self, m, o, case):
        try:
            best = m.best_per_set(20000)
        except RuntimeError:
            return []
        # the largest route cost cannot go below the cheapest way to reach the most expensive customer
        lo = max(min([b[0] for (k, s), b in best.items() if c in s] + ([m.drop] if m.drop else []))
                 for c in m.customers)
        v = o.out["best_value"]
        msgs = []
        if v < lo - 1e-6 * max(1, abs(lo)):
            msgs.append("best_value %s is below %s, the least a route to some customer costs" % (v, lo))
        least = {}
        for S, c, k in O.columns(m, o):
            if c > 0 and ((S, k) not in least or c < least[S, k]):
                least[S, k] = c
        if least and not msgs:
            st, z = ref.solve_span(m, [(S, k, c) for (S, k), c in least.items()])
            if st == 1 and v > z + 1e-5 * max(1, abs(z)):
                msgs.append("largest route cost %s although the %s generated routes allow for %s" % (v, len(least), z))
        return msgs

    def nontrivial(self, m, o):
        return len(o.out["best_routes"]) >= 2


# --------------------------------------------------------------------------
def _pick(rng, cust):
    return rng.choice(list(cust))


def invalid_inputs():
    """name -> (mutator(rng, case, m) or None if not applicable, expected exception types)."""
    def params(**kw):
        def f(rng, c, m):
            c["params"].update({k: (v(rng, m) if callable(v) else v) for k, v in kw.items()})
        return f

    def opts(**kw):
        def f(rng, c, m):
            c["solve"].update({k: (v(rng, m) if callable(v) else v) for k, v in kw.items()})
        return f

    def no_source(rng, c, m):
        x = rng.choice([SOURCE, SINK])
        c["graph"]["nodes"] = [n for n in c["graph"]["nodes"] if n[0] != x]
        c["graph"]["edges"] = [e for e in c["graph"]["edges"] if x not in e[:2]]

    def into_source(rng, c, m):
        c["graph"]["edges"].append([_pick(rng, m.customers), SOURCE, {"cost": cost(m), "time": 1}])

    def out_of_sink(rng, c, m):
        c["graph"]["edges"].append([SINK, _pick(rng, m.customers), {"cost": cost(m), "time": 1}])

    def cost(m):
        return [1] * m.K if m.mixed else 1

    def no_cost(rng, c, m):
        del c["graph"]["edges"][rng.randrange(len(c["graph"]["edges"]))][2]["cost"]

    def scalar_cost(rng, c, m):
        e = c["graph"]["edges"][rng.randrange(len(c["graph"]["edges"]))]
        e[2]["cost"] = 3

    def short_cost(rng, c, m):
        e = c["graph"]["edges"][rng.randrange(len(c["graph"]["edges"]))]
        e[2]["cost"] = e[2]["cost"] + [1] if rng.random() < 0.5 else e[2]["cost"][:-1]

    def too_much(attr):
        def f(rng, c, m):
            A = G.attrs(c["graph"])
            A[_pick(rng, m.customers)][attr] = max(m.cap) + rng.choice([1, 1, 100])
        return f

    def too_far(rng, c, m):
        v = _pick(rng, m.customers)
        to, back = m.shortest_times(v)
        lim = to + back + m.node[v]["service_time"]
        c["params"]["duration"] = max(1, int(lim) - (1 if lim == int(lim) else 0))
        return lim > c["params"]["duration"]

    def missing_customer(rng, m):
        v = _pick(rng, m.customers)
        return [[SOURCE, x, SINK] for x in m.customers if x != v] or [[SOURCE, SINK]]

    def open_route(rng, m):
        rs = [[SOURCE, x, SINK] for x in m.customers]
        i = rng.randrange(len(rs))
        rs[i] = rs[i][1:] if rng.random() < 0.5 else rs[i][:-1]
        return rs

    def absent_edge(rng, m):
        pairs = [(a, b) for a in m.customers for b in m.customers if a != b and (a, b) not in m.edge]
        if not pairs:
            return None
        a, b = rng.choice(pairs)
        return [[SOURCE, x, SINK] for x in m.customers if x not in (a, b)] + [[SOURCE, a, b, SINK]]

    def useless_edge(rng, m):
        """An edge of the graph which no feasible route can use."""
        pairs = [(a, b) for a in m.customers for b in m.customers if (a, b) in m.edge and (
            m.tw and m.node[a]["lower"] + m.node[a]["service_time"] + m.edge[a, b][1] > m.node[b]["upper"]
            or m.cap and m.node[a]["demand"] + m.node[b]["demand"] > max(m.cap))]
        if not pairs:
            return None
        a, b = rng.choice(pairs)
        rs = [[SOURCE, x, SINK] for x in m.customers if x not in (a, b)]
        rs.insert(rng.randint(0, len(rs)), [SOURCE, a, b, SINK])
        return rs

    def one_capacity(bad):
        def f(rng, c, m):
            c["params"]["load_capacity"] = x = list(c["params"]["load_capacity"])
            x[rng.randrange(len(x))] = bad(rng, m)
        return f

    def ghost(rng, m):
        return [[SOURCE, "ghost-customer", SINK]]

    def bad_dims(key):
        def f(rng, c, m):
            x = c["params"][key]
            c["params"][key] = x + [x[-1]] if rng.random() < 0.5 or len(x) == 1 else x[:-1]
        return f

    no = lambda m: True
    return {
        # name: (applicable(m), mutate, expected)
        "graph is not directed": (no, lambda rng, c, m: c.update(undirected=True), ("TypeError",)),
        "depot missing": (no, no_source, ("KeyError", "NetworkXError")),
        "edge into Source": (no, into_source, ("NetworkXError",)),
        "edge out of Sink": (no, out_of_sink, ("NetworkXError",)),
        "edge without cost": (no, no_cost, ("KeyError",)),
        "negative stops": (no, params(num_stops=lambda r, m: -r.randint(1, 5)), ("TypeError",)),
        "fractional stops": (no, params(num_stops=lambda r, m: r.choice([1.5, 2.5, "3"])), ("TypeError",)),
        "negative capacity": (lambda m: not m.mixed, params(load_capacity=lambda r, m: -r.randint(1, 9)), ("TypeError",)),
        "fractional capacity": (lambda m: not m.mixed, params(load_capacity=lambda r, m: r.choice([10.5, 99.9])),
                                ("TypeError",)),
        "negative capacity of one type": (lambda m: m.mixed and m.cap, one_capacity(lambda r, m: r.choice([0, -1, -20])),
                                          ("TypeError",)),
        "fractional capacity of one type": (lambda m: m.mixed and m.cap, one_capacity(
            lambda r, m: r.choice([max(m.cap) + 0.5, 1.5, str(max(m.cap))])), ("TypeError",)),
        "negative duration": (no, params(duration=lambda r, m: -r.randint(1, 9)), ("TypeError",)),
        "fractional duration": (no, params(duration=lambda r, m: r.choice([10000.5, 99999.9])), ("TypeError",)),
        "unknown pricing strategy": (no, opts(pricing_strategy=lambda r, m: r.choice(["exact", "BestEdges3", "", None])),
                                     ("ValueError",)),
        "scalar cost, mixed fleet": (lambda m: m.mixed, scalar_cost, ("TypeError",)),
        "cost list of wrong length": (lambda m: m.mixed and m.K > 1, short_cost, ("ValueError",)),
        "capacities and fixed costs differ in length": (lambda m: m.mixed and m.cap and m.fixed, bad_dims("fixed_cost"),
                                                        ("ValueError",)),
        "capacities and vehicles differ in length": (lambda m: m.mixed and m.cap and m.nveh, bad_dims("num_vehicles"),
                                                     ("ValueError",)),
        "vehicles and fixed costs differ in length": (lambda m: m.mixed and m.fixed and m.nveh and not m.cap,
                                                      bad_dims("num_vehicles"), ("ValueError",)),
        "demand above capacity": (lambda m: m.cap and not m.pd, too_much("demand"), ("ValueError",)),
        "collect above capacity": (lambda m: m.cap and m.sdc, too_much("collect"), ("ValueError",)),
        "customer too far for duration": (lambda m: m.duration and not m.pd, too_far, ("ValueError",)),
        "cspy with pickup and delivery": (lambda m: m.pd, opts(cspy=True), ("NotImplementedError",)),
        "pickup and delivery without request": (lambda m: not m.pd, lambda rng, c, m: (
            c["params"].update(pickup_delivery=True), c["solve"].update(cspy=False)), ("KeyError",)),
        "initial routes miss a customer": (lambda m: not m.pd, opts(initial_routes=missing_customer), ("KeyError",)),
        "initial route without depot": (lambda m: not m.pd, opts(initial_routes=open_route), ("ValueError", "KeyError")),
        "initial route over absent edge": (lambda m: not m.pd and any(
            (a, b) not in m.edge for a in m.customers for b in m.customers if a != b),
            opts(initial_routes=absent_edge), ("KeyError",)),
        "initial route over unusable edge": (lambda m: (m.tw or m.cap) and not m.pd and not m.sdc,
                                             opts(initial_routes=useless_edge), ("KeyError", "ValueError")),
        "preassigned route over absent edge": (lambda m: not m.pd, opts(preassignments=ghost), ("ValueError",)),
        "heuristic_only not supported": (lambda m: m.tw or m.pd or m.sdc or m.mixed or m.periodic,
                                         opts(heuristic_only=True), ("ValueError",)),
    }


INVALID = invalid_inputs()


@prop("C19")
class Validation(Prop):
    technique = ("fault injection on inputs: one documented mistake per call in a random problem; monitor on the type of "
                 "the exception, on the absence of a solution and on the next, correct call")
    rule = ("seeded random valid problems x 30 kinds of invalid input placed at a random spot (also as the second call on "
            "an object already solved); the same problem without the mistake is solved for comparison; non-trivial: "
            "the mistake was applied and the corrected problem is accepted")
    quick = 1600
    thorough = 16000

    def make(self, kind, i, seed):
        rng = W.rng_for(self.pid, seed, kind, i)
        names = sorted(INVALID)
        name = names[i % len(names)]
        need = {"heuristic_only not supported": ["tw", "sdc", "mixed", "periodic", "pd"],
                "customer too far for duration": ["dur"], "demand above capacity": ["cap"],
                "collect above capacity": ["sdc"], "cspy with pickup and delivery": ["pd"],
                "negative capacity of one type": ["mixed"], "fractional capacity of one type": ["mixed"],
                "initial route over unusable edge": ["tw", "cap"],
                "scalar cost, mixed fleet": ["mixed"], "cost list of wrong length": ["mixed"]}.get(name)
        while True:
            req = {rng.choice(need)} if need else set()
            if "differ in length" in name:
                req = {"mixed"}
                req |= {"cap"} if "capacities" in name else set()
                req |= {"fixed"} if "fixed" in name else set()
                req |= {"fleet"} if "vehicles" in name else set()
            f = G.pick_features(rng, tuple(sorted(req)), W.ALL, 0.25)
            g, par = G.compose(rng, f, n=rng.randint(2, 6) if "pd" not in f else 4)
            m = M.Model(g, par)
            applies, mutate, want = INVALID[name]
            if not applies(m):
                continue
            s = G.solve_options(rng, cspy=False if "pd" in f else None)
            s["max_iter"] = 2
            import copy
            case = {"graph": g, "params": par, "solve": s, "seed": rng.randrange(10 ** 6), "features": sorted(f),
                    "mode": "invalid", "mistake": name, "expected": list(want)}
            bad = copy.deepcopy({k: case[k] for k in ("graph", "params", "solve")})
            if mutate(rng, bad, m) is False:
                continue
            if bad["solve"].get("initial_routes", 1) is None:
                continue
            case["bad"] = bad
            case["second"] = rng.random() < 0.3
            return case

    def judge(self, case):
        from vrpy import VehicleRoutingProblem
        m = M.Model(case["graph"], case["params"])
        bad = case["bad"]
        obs = {"mistake_" + case["mistake"]: 1}
        msgs = []
        solve_bad = bad["graph"] == case["graph"] and bad["params"] == case["params"]
        prob, raised = None, None
        try:
            with open(R.os.devnull, "w") as dn, R.contextlib.redirect_stdout(dn), R.watchdog(20):
                Gr = R.build_graph(bad["graph"])
                if bad.get("undirected"):
                    Gr = R.nx.Graph(Gr)
                prob = VehicleRoutingProblem(Gr, **R.fresh_params(bad["params"]))
                if case["second"] and solve_bad:
                    R.seed_all(1)
                    try:
                        prob.solve(**R.fresh_solve(case["solve"]))
                        obs["second_call"] = 1
                    except Exception:
                        pass  # judged below
                try:
                    prob.solve(**R.fresh_solve(bad["solve"]))
                except Exception as e:
                    raised = e
        except R.CaseTimeout:
            return result(case, "inconclusive", reason="watchdog", obs=obs)
        except Exception as e:
            raised = e
        kind = type(raised).__name__ if raised is not None else None
        if kind is None:
            msgs.append("'%s' is accepted without an error" % case["mistake"])
        elif kind not in case["expected"]:
            msgs.append("'%s' raises %s (%s) instead of %s" % (case["mistake"], kind, str(raised)[:120],
                                                               " or ".join(case["expected"])))
        # the object stays usable when only the options were wrong; the same problem without the mistake is accepted
        good = {k: v for k, v in case.items() if k != "bad"}
        o = R.run_case(good, 25, prob=prob if solve_bad and prob is not None else None)
        if o.status == "timeout":
            return result(case, "inconclusive", reason="watchdog", obs=obs)
        if o.status == "exception":
            u = unexpected(m, o)
            if u:
                msgs.append("after '%s': %s" % (case["mistake"], u))
        elif not msgs:
            msgs += O.all_constraints(m, o, case)
        return result(case, "violation" if msgs else "ok", msgs, obs=obs, nontrivial=o.status == "ok",
                      sig=case["mistake"] + signature(m, o, case))
