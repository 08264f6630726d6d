"""Scenarios: problem x solver options x way of calling it."""
import random

from . import gen as G
from . import model as M

SOURCE, SINK = "Source", "Sink"
ALL = ["cap", "stops", "dur", "tw", "sdc", "pd", "mixed", "fixed", "fleet", "drop", "periodic"]
MODES = ["plain"] * 10 + ["initial", "initial", "maxiter", "clock", "clock", "dive", "locked", "again", "again"]


def rng_for(*key):
    return random.Random("/".join(map(str, key)))


def feasible_routes(m, limit=4000):
    out = []
    for k in range(m.K):
        try:
            out += m.all_routes(k, limit)
        except RuntimeError:
            return []
    return out


def random_partition(rng, m, routes, maximum=None):
    """Disjoint feasible routes in random order (all customers, unless maximum is given)."""
    routes = list(routes)
    rng.shuffle(routes)
    sol, seen = [], set()
    for r in routes:
        if maximum is not None and len(sol) >= maximum:
            break
        s = set(r[1:-1])
        if not s & seen:
            sol.append(list(r))
            seen |= s
    return sol, seen


def scenario(rng, require=(), allow=ALL, modes=MODES, n=None, p=0.3, opts=None, holes=0, unreach=0, **kw):
    """One JSON-serialisable case."""
    mode = rng.choice(modes)
    f = G.pick_features(rng, require, allow, p)
    if mode in ("initial", "locked"):
        f.discard("fleet")
        f.discard("useall")
    if mode == "locked":
        f.discard("periodic")
    if "mixed" in f and not f & {"cap", "fixed", "fleet"}:
        f.add("cap")
    if "pd" not in f and n is None and rng.random() < 0.25:
        n = rng.choice([1, 2, 7])
    g, par = G.compose(rng, f, n=n if "pd" not in f else (None if n is None else max(2, n)),
                       zero_cost=rng.choice([0.3, 0.7]) if rng.random() < 0.08 else 0, **kw)
    if holes and not f & {"mixed", "periodic", "fleet", "useall"} and rng.random() < holes:
        G.punch_holes(rng, g)
    if unreach and "tw" in f and "drop" in f and "pd" not in f and mode != "initial" and rng.random() < unreach:
        A = G.attrs(g)
        for v in A:
            if v not in (SOURCE, SINK) and rng.random() < 0.4:
                A[v]["lower"], A[v]["upper"] = 0, rng.randint(0, 4)
    s = G.solve_options(rng, cspy=False if "pd" in f else None)
    s.update(opts or {})
    if "pd" in f:
        s["cspy"] = False
    elif n and n >= 7:
        s["cspy"] = True  # the LP pricing of problems of this size is too slow
    case = {"graph": g, "params": par, "solve": s, "seed": rng.randrange(10 ** 6), "features": sorted(f), "mode": mode}
    m = M.Model(g, par)
    if mode == "initial":
        rts = feasible_routes(m)
        sol, seen = random_partition(rng, m, rts)
        if len(seen) == len(m.customers):
            extra = [list(r) for r in rng.sample(rts, min(len(rts), rng.choice([0, 0, 2])))]
            s["initial_routes"] = sol + extra
    elif mode == "maxiter":
        s["max_iter"] = rng.choice([1, 1, 2, 3, 5])
    elif mode == "clock":
        s["time_limit"] = rng.choice([1, 2, 5, 0.3, 60])
        if rng.random() < 0.5:
            case["clock"] = {"step": rng.choice([0.001, 0.01, 0.1, 0.5, 2])}
        else:
            case["clock"] = {"jump_at": rng.choice([2, 2, 3, 4, 5, 6, 8, 10, 15, 25, 40]), "jump": 100}
    elif mode == "dive":
        s["dive"] = True
    elif mode == "locked":
        sol, _ = random_partition(rng, m, feasible_routes(m), rng.choice([1, 1, 2]))
        if sol:
            s["preassignments"] = sol
    elif mode == "again":
        hist = []
        for _ in range(rng.choice([1, 1, 2])):
            h = G.solve_options(rng, cspy=False if "pd" in f else True if n and n >= 7 else None)
            if rng.random() < 0.3:
                h["max_iter"] = rng.choice([1, 2])
            if rng.random() < 0.2 and "pd" not in f:
                h["heuristic_only"] = True
            if rng.random() < 0.2 and "fleet" not in f and "periodic" not in f:
                sol, _ = random_partition(rng, m, feasible_routes(m), 1)
                if sol:
                    h["preassignments"] = sol
            hist.append(h)
        case["history"] = hist
    return case


def big_scenario(rng, require=(), allow=ALL, p=0.3, lo=8, hi=14):
    allow = [a for a in allow if a != "pd"]
    return scenario(rng, require, allow, modes=["plain", "plain", "clock", "maxiter"], n=rng.randint(lo, hi), p=p,
                    opts={"cspy": True})
