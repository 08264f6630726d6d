"""Property oracles: judge the public outputs of one finished solve.

Every oracle is a function (m, o, case) -> list of messages, where m is the
independent Model of the *input* and o.out the public outputs.  An empty list
means the property held on this execution.
"""
import collections
from .model import SOURCE, SINK, BIG, close

TOL = 1e-6


def served_counter(o):
    c = collections.Counter()
    for r in o.out["best_routes"].values():
        c.update(r[1:-1])
    return c


def sound_routes(m, o):
    """Routes whose structure is fine (other oracles only judge those)."""
    for i, r in o.out["best_routes"].items():
        if not m.structure_errors(r):
            k = (o.out["best_routes_type"] or {}).get(i, 0)
            yield i, r, k


def unserved(m, o):
    cnt = served_counter(o)
    return {v for v in m.customers if not cnt[v]}


def coverage(m, o, case=None):
    e = []
    if not isinstance(o.out["best_routes"], dict):
        return ["best_routes is %r" % (o.out["best_routes"],)]
    for i, r in o.out["best_routes"].items():
        for x in m.structure_errors(r):
            e.append("route %s %r %s" % (i, r, x))
    cnt = served_counter(o)
    for v in m.customers:
        f = m.node[v]["frequency"] if m.periodic else 1
        if m.drop:
            if cnt[v] > f:
                e.append("customer %r served %s times" % (v, cnt[v]))
        elif cnt[v] != f:
            e.append("customer %r served %s times instead of %s" % (v, cnt[v], f))
    for v in cnt:
        if v not in m.node:
            e.append("route visits unknown node %r" % (v,))
    return e


def _per_route(kind, needs_k):
    def f(m, o, case=None):
        e = []
        for i, r, k in sound_routes(m, o):
            if needs_k and not (isinstance(k, int) and 0 <= k < m.K):
                e.append("route %s has vehicle type %r" % (i, k))
                continue
            fn = getattr(m, kind + "_errors")
            for x in (fn(r, k) if needs_k else fn(r)):
                e.append("route %s %r: %s" % (i, r, x))
        return e
    f.__name__ = kind
    return f


load = _per_route("load", True)
sdc = _per_route("sdc", True)
pd = _per_route("pd", True)
stops = _per_route("stops", False)
duration = _per_route("duration", False)
windows = _per_route("tw", False)


def fleet(m, o, case=None):
    if not m.nveh or m.periodic:
        return []
    e = []
    per = collections.Counter(o.out["best_routes_type"].get(i) for i in o.out["best_routes"])
    for k in range(m.K):
        if per[k] > m.nveh[k]:
            e.append("%s routes of type %s, only %s vehicles" % (per[k], k, m.nveh[k]))
        if m.use_all and per[k] != m.nveh[k]:
            e.append("use_all_vehicles: %s routes of type %s instead of %s" % (per[k], k, m.nveh[k]))
    return e


def accounting(m, o, case=None):
    e = []
    out = o.out
    if out.get("attr_errors"):
        e.append("reading results failed: %s" % out["attr_errors"])
        return e
    ids = set(out["best_routes"])
    for name in ("best_routes_cost", "best_routes_type"):
        if set(out[name]) != ids:
            e.append("%s has keys %s, routes are %s" % (name, sorted(map(str, out[name])), sorted(map(str, ids))))
    total, mx = 0.0, 0.0
    for i, r, k in sound_routes(m, o):
        c = m.cost(r, k)
        total += c
        mx = max(mx, c)
        got = out["best_routes_cost"].get(i)
        if got is None or not close(got, c):
            e.append("best_routes_cost[%s] = %s, route %r with type %s costs %s" % (i, got, r, k, c))
    want = mx if m.span else total
    if m.drop:
        want += m.drop * len(unserved(m, o))
    if not e and not close(out["best_value"], want):
        e.append("best_value = %s, routes and penalties amount to %s" % (out["best_value"], want))
    return e


def final_objective(m, o, case=None):
    """best_value is the value of the last optimisation (observed at the PuLP boundary)."""
    if case and case["solve"].get("preassignments"):
        return []  # locked routes are not part of the optimisation
    ev = [x for x in o.masters if x["final"]]
    if not ev or ev[-1]["status"] != 1 or ev[-1]["obj"] is None:
        return []
    if not close(ev[-1]["obj"], o.out["best_value"], 1e-5):
        return ["best_value = %s but the final optimisation ended with %s" % (o.out["best_value"], ev[-1]["obj"])]
    return []


def reports(m, o, case=None):
    """Load, duration and time reports match a recomputation from the input."""
    e = []
    out = o.out
    if out.get("attr_errors"):
        return ["reading results failed: %s" % out["attr_errors"]]
    ids = set(out["best_routes"])

    def keys(name, want):
        if set(out[name] or {}) != (ids if want else set()):
            e.append("%s has keys %s, expected %s" % (name, sorted(map(str, out[name] or {})),
                                                      sorted(map(str, ids)) if want else "none"))
            return False
        return want

    hl = keys("best_routes_load", bool(m.cap) and not m.sdc and not m.pd)
    hn = keys("node_load", bool(m.cap) or m.pd or m.sdc)
    timed = bool(m.duration) or m.tw
    hd = keys("best_routes_duration", timed)
    ha = keys("arrival_time", timed)
    hp = keys("departure_time", timed)
    for i, r, k in sound_routes(m, o):
        if hl and not close(out["best_routes_load"][i], m.load(r)):
            e.append("best_routes_load[%s] = %s, is %s" % (i, out["best_routes_load"][i], m.load(r)))
        if hn:
            amount = m.load(r) if m.sdc else 0
            want = {}
            for v in r:
                amount += (m.node[v]["collect"] - m.node[v]["demand"]) if m.sdc else m.node[v]["demand"]
                want[v] = amount
            e += _cmp("node_load", i, out["node_load"][i], want)
        if hd and not close(out["best_routes_duration"][i], m.dur(r)):
            e.append("best_routes_duration[%s] = %s, is %s" % (i, out["best_routes_duration"][i], m.dur(r)))
        if ha or hp:
            arr = dict(zip(r, m.arrivals(r)))
            if ha:
                e += _cmp("arrival_time", i, out["arrival_time"][i], arr)
            if hp:
                dep = {v: t + (m.node[v]["service_time"] if v != SOURCE else 0) for v, t in arr.items()}
                e += _cmp("departure_time", i, out["departure_time"][i], dep)
    return e


def _cmp(name, i, got, want):
    if set(got) != set(want):
        return ["%s[%s] has keys %s instead of %s" % (name, i, list(got), list(want))]
    return ["%s[%s][%r] = %s, is %s" % (name, i, v, got[v], want[v]) for v in want if not close(got[v], want[v])]


def all_constraints(m, o, case=None):
    e = coverage(m, o)
    for f in (load, sdc, pd, stops, duration, windows, fleet):
        e += f(m, o)
    return e


# --------------------------------------------------------------------------
# Column monitor: every route offered to the master, not only those chosen
# --------------------------------------------------------------------------
def columns(m, o):
    """Distinct elementary columns [(frozenset, cost, type or None)]."""
    seen = {}
    for cover, cost, k, usable in o.columns:
        if usable and all(abs(x - 1) < 1e-9 for x in cover.values()):
            seen[(frozenset(cover), round(cost, 6), k)] = (frozenset(cover), cost, k)
    return list(seen.values())


def _types(m, k):
    return [k] if k is not None else list(range(m.K))


def column_errors(m, o, kind, case=None):
    """kind: one of load, stops, duration, tw, sdc, pd, path, cost."""
    e = []
    if case and any(r[0] != SOURCE or r[-1] != SINK for r in case.get("solve", {}).get("preassignments") or []):
        return e  # costs of partial preassignments are altered on purpose
    orders = m.orders()
    for S, cost, k in columns(m, o):
        ks = _types(m, k)
        if kind == "stops":
            if m.num_stops and len(S) > m.num_stops:
                e.append("column %r visits %s customers, num_stops is %s" % (sorted(map(str, S)), len(S), m.num_stops))
            continue
        if kind == "load" and len(ks) == 1 and m.cap and not m.pd and not m.sdc:
            load_ = sum(m.node[v]["demand"] for v in S)
            if load_ > m.cap[ks[0]] + 1e-6:
                e.append("column %r has load %s, capacity %s" % (sorted(map(str, S)), load_, m.cap[ks[0]]))
            continue
        if orders is None:
            continue
        ok = False
        for r in orders.get(S, ()):
            for kk in ks:
                if kind != "path" and not m.span and not close(m.cost(r, kk), cost, 1e-6):
                    continue
                if kind in ("path", "cost"):
                    ok = True
                elif kind in ("load", "sdc", "pd"):
                    ok = not getattr(m, kind + "_errors")(r, kk)
                else:
                    ok = not getattr(m, kind + "_errors")(r)
                if ok:
                    break
            if ok:
                break
        if not ok:
            e.append("column over customers %r with cost %s: no such route passes '%s'" % (sorted(map(str, S)), cost, kind))
    return e
