"""Seeded generators of well-posed problems and solver options."""
import math

SOURCE, SINK = "Source", "Sink"
STYLES = ["int"] * 4 + ["shuffled"] * 2 + ["str"] * 2 + ["letters", "zero", "spaces", "signed", "long", "sourcelike"]
STRATEGIES = ["Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"]


def _matrix(rng, names, geo, scale=20):
    """Pairwise 'distance' in one of several shapes (ints or one-decimal floats)."""
    pts = {}
    if geo == "cluster":
        cx, cy = rng.uniform(scale, 2 * scale), rng.uniform(-scale, scale)
        for v in names:
            pts[v] = (cx + rng.uniform(-scale / 5, scale / 5), cy + rng.uniform(-scale / 5, scale / 5))
        pts[SOURCE] = pts[SINK] = (0.0, 0.0)
    elif geo == "grid":  # many ties, co-located customers
        for v in names:
            pts[v] = (10.0 * rng.randint(0, 2), 10.0 * rng.randint(0, 2))
        pts[SOURCE] = pts[SINK] = (-5.0, 0.0)
    else:
        for v in names:
            pts[v] = (rng.uniform(-scale, scale), rng.uniform(-scale, scale))
        pts[SINK] = pts[SOURCE]
    d = {}
    for u in names:
        for v in names:
            if u == v:
                continue
            x = math.hypot(pts[u][0] - pts[v][0], pts[u][1] - pts[v][1])
            if geo == "asym":
                x = x * rng.uniform(0.6, 1.6)
            elif geo == "random":
                x = rng.uniform(1, scale)
            elif geo == "uniform":
                x = 10
            d[u, v] = x
    return d


def _round(rng, x, mode):
    if mode == "int":
        return int(round(x))
    if mode == "half":
        return round(x * 2) / 2
    return round(x, 1)


def node_names(rng, n, style):
    if style == "int":
        return list(range(1, n + 1))
    if style == "shuffled":
        return rng.sample(range(1, 40), n)
    if style == "str":
        return ["c%d" % i for i in range(1, n + 1)]
    if style == "letters":
        return rng.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota"], n)
    if style == "zero":
        return list(range(0, n))
    if style == "spaces":
        return rng.sample(["New York", "St. Ives", "x-1", "a+b", "q[1]", "p->q", "r/s", "non elem", "Le Mans"], n)
    if style == "signed":
        return rng.sample([-3, -2, -1, 0, 4, 5, 6, 2.5, 17], n)
    if style == "long":
        return ["customer_%s_%d" % ("x" * 60, i) for i in range(n)]
    if style == "sourcelike":
        return rng.sample(["source", "sink", "Source_1", "Sink_1", "SourceSink", "non", "y1", "visit_node_1", "drop_"], n)
    raise ValueError(style)


def base_graph(rng, n=None, geo=None, density=None, style=None, rounding=None, times=True,
               service=None, zero_cost=0.0):
    n = n or rng.randint(3, 6)
    geo = geo or rng.choice(["euclid", "euclid", "cluster", "asym", "random", "uniform", "grid"])
    style = style or rng.choice(STYLES if n <= 9 else ["int", "str"])
    rounding = rounding or rng.choice(["int", "int", "half", "dec"])
    density = density if density is not None else rng.choice([1.0, 1.0, 0.7, 0.4])
    cust = node_names(rng, n, style)
    names = [SOURCE] + cust + [SINK]
    d = _matrix(rng, names, geo)
    tmode = rng.choice(["same", "indep", "scaled", "wild"])
    d2 = _matrix(rng, names, geo) if tmode in ("indep", "wild") else d
    ftime = rng.random() < 0.15
    nodes = [[v, {}] for v in names]
    rng.shuffle(nodes)
    edges = []
    for u in names:
        for v in names:
            if u == v or u == SINK or v == SOURCE or (u == SOURCE and v == SINK):
                continue
            inner = u != SOURCE and v != SINK
            if inner and rng.random() > density:
                continue
            c = _round(rng, d[u, v], rounding)
            if zero_cost and rng.random() < zero_cost:
                c = 0
            a = {"cost": c}
            if times:
                t = d2[u, v] * (0.5 if tmode == "scaled" else 1)
                if tmode == "wild":  # far from metric
                    t *= rng.choice([0.2, 1, 1, 4] if inner else [0.2, 1])
                a["time"] = round(t * 2) / 2 if ftime else int(round(t))
            edges.append([u, v, a])
    rng.shuffle(edges)
    g = {"nodes": nodes, "edges": edges}
    if service is None:
        service = rng.random() < 0.5
    if service and times:
        for v, a in nodes:
            if v not in (SOURCE, SINK):
                a["service_time"] = rng.randint(0, 6)
    return g, cust


def attrs(g):
    return {v: a for v, a in g["nodes"]}


def edict(g):
    return {(u, v): a for u, v, a in g["edges"]}


def set_demands(rng, g, cust, hi=9, lo=0):
    A = attrs(g)
    mode = rng.choice(["int"] * 14 + ["half"] * 2 + ["small"] * 2)
    for v in cust:
        if mode == "small":  # fractions of a unit (exact in binary)
            A[v]["demand"] = rng.choice([rng.randint(1, 31), rng.randint(8, 15)]) / 16
        else:
            A[v]["demand"] = rng.randint(lo, hi) + (0.5 if mode == "half" and rng.random() < 0.5 else 0)


def set_capacity(rng, g, cust):
    A = attrs(g)
    tot = sum(A[v].get("demand", 0) for v in cust)
    mx = max([A[v].get("demand", 0) for v in cust] + [1])
    return max(int(math.ceil(mx)), int(math.ceil(tot / rng.choice([1.3, 1.8, 2.2, 3.0]))), 1)


def roundtrip_time(g, v):
    A, E = attrs(g), edict(g)
    return E[SOURCE, v].get("time", 0) + E[v, SINK].get("time", 0) + A[v].get("service_time", 0)


def set_duration(rng, g, cust):
    mx = max(roundtrip_time(g, v) for v in cust)
    return max(1, int(math.ceil(mx * rng.choice([1.0, 1.2, 1.6, 2.2]))))


def set_windows(rng, g, cust, horizon=None, sink=None):
    """Windows such that every round trip is feasible."""
    A, E = attrs(g), edict(g)
    need = max(roundtrip_time(g, v) for v in cust)
    horizon = horizon or int(need * rng.choice([1.5, 2.5, 4]) + 10)
    start = rng.choice([0, 0, 0, rng.randint(1, 10)])
    if start:
        A[SOURCE]["lower"] = start
        A[SOURCE]["upper"] = start + horizon
        A[SINK]["lower"] = start
    else:
        if rng.random() < 0.5:
            A[SOURCE]["upper"] = horizon
    explicit_sink = rng.random() < 0.7 if sink is None else sink
    if explicit_sink:
        A[SINK]["upper"] = start + horizon
    for v in cust:
        earliest = int(math.ceil(start + E[SOURCE, v].get("time", 0)))
        latest = int(math.floor(start + horizon - E[v, SINK].get("time", 0) - A[v].get("service_time", 0)))
        up = rng.randint(earliest, max(earliest, latest))
        lo = rng.randint(0, up) if rng.random() < 0.7 else 0
        A[v]["lower"], A[v]["upper"] = lo, up


def set_sdc(rng, g, cust, cap):
    A = attrs(g)
    for v in cust:
        A[v]["demand"] = rng.randint(0, min(9, cap))
        A[v]["collect"] = rng.randint(0, min(9, cap))


def set_pd(rng, g, cust):
    """Pairs up customers (drops the odd one), adds the pair edges if needed."""
    A, E = attrs(g), edict(g)
    c = list(cust)
    rng.shuffle(c)
    if len(c) % 2:
        v = c.pop()
        g["nodes"] = [x for x in g["nodes"] if x[0] != v]
        g["edges"] = [e for e in g["edges"] if v not in (e[0], e[1])]
        A, E = attrs(g), edict(g)
    demands = []
    light, forward = rng.random() < 0.2, rng.random() < 0.3
    for p, d in zip(c[::2], c[1::2]):
        q = rng.choice([0, 0, rng.randint(1, 6)]) if light else rng.randint(1, 6)
        demands.append(q)
        A[p]["request"], A[p]["demand"] = d, q
        A[d]["demand"] = -q
        if (p, d) not in E:
            g["edges"].append([p, d, {"cost": rng.randint(1, 20), "time": rng.randint(1, 20)}])
    if forward:  # no way back from a delivery to its pickup
        back = {(d, p) for p, d in zip(c[::2], c[1::2])}
        g["edges"] = [e for e in g["edges"] if (e[0], e[1]) not in back]
    cap = max(max(demands), int(sum(demands) * rng.choice([0.4, 0.7, 1.0])), 1)
    return c, cap


def punch_holes(rng, g):
    """Removes edges from and to the depot (vrpy replaces them with very expensive ones)."""
    A = attrs(g)
    keep_first = {v for v in A if "request" in A[v]}
    keep_last = {A[v]["request"] for v in keep_first}
    pd = bool(keep_first)
    q = rng.choice([0.15, 0.4])
    g["edges"] = [e for e in g["edges"] if not (
        (e[0] == SOURCE and not (pd and e[1] in keep_first) or e[1] == SINK and not (pd and e[0] in keep_last))
        and rng.random() < q)]


def to_mixed(rng, g, K):
    """Edge costs become lists, one per vehicle type."""
    f = [1.0] + [rng.choice([1.0, 1.3, 0.8, 2.0]) for _ in range(K - 1)]
    add = [0] + [rng.choice([0, 1, 3]) for _ in range(K - 1)]
    for e in g["edges"]:
        c = e[2]["cost"]
        e[2]["cost"] = [c] + [round(c * f[k] + add[k], 1) for k in range(1, K)]


def solve_options(rng, cspy=None, strategies=STRATEGIES, greedy=None, elementary=None, dive=False):
    s = {"pricing_strategy": rng.choice(strategies)}
    if cspy is None:
        cspy = rng.random() < 0.6
    s["cspy"] = cspy
    if elementary is None:
        elementary = rng.random() < 0.3
    if cspy and elementary:
        s["elementary"] = True
    if greedy is None:
        greedy = rng.random() < 0.3
    if greedy:
        s["greedy"] = True
    if dive:
        s["dive"] = True
    if rng.random() < 0.2:
        s["run_exact"] = rng.choice([2, 3, 10])
    return s


FAMILIES = ["cap", "stops", "dur", "capdur", "all3", "tw", "twcap", "twall", "sdc", "sdctw", "pd", "pdtw",
            "periodic", "mixed", "plain"]


def instance(rng, family, n=None, **kw):
    """Returns (graph, params, needs_lp) : a well-posed instance of the family."""
    p = {}
    if family in ("pd", "pdtw"):
        n = n or rng.choice([4, 4, 6])
    g, cust = base_graph(rng, n=n, **kw)
    lp_only = False
    if family == "plain":
        pass
    elif family == "cap":
        set_demands(rng, g, cust)
        p["load_capacity"] = set_capacity(rng, g, cust)
    elif family == "stops":
        p["num_stops"] = rng.randint(1, 4)
    elif family == "dur":
        p["duration"] = set_duration(rng, g, cust)
    elif family == "capdur":
        set_demands(rng, g, cust)
        p["load_capacity"] = set_capacity(rng, g, cust)
        p["duration"] = set_duration(rng, g, cust)
    elif family == "all3":
        set_demands(rng, g, cust)
        p["load_capacity"] = set_capacity(rng, g, cust)
        p["duration"] = set_duration(rng, g, cust)
        p["num_stops"] = rng.randint(1, 4)
    elif family in ("tw", "twcap", "twall"):
        set_windows(rng, g, cust)
        p["time_windows"] = True
        if family != "tw":
            set_demands(rng, g, cust)
            p["load_capacity"] = set_capacity(rng, g, cust)
        if family == "twall":
            if rng.random() < 0.6:
                p["num_stops"] = rng.randint(1, 4)
            p["duration"] = set_duration(rng, g, cust)
    elif family in ("sdc", "sdctw"):
        cap = rng.randint(6, 20)
        set_sdc(rng, g, cust, cap)
        p["load_capacity"] = cap
        p["distribution_collection"] = True
        if family == "sdctw":
            set_windows(rng, g, cust)
            p["time_windows"] = True
        if rng.random() < 0.2:
            p["num_stops"] = rng.randint(1, 4)
    elif family in ("pd", "pdtw"):
        cust, cap = set_pd(rng, g, cust)
        p["load_capacity"] = cap
        p["pickup_delivery"] = True
        if rng.random() < 0.3:
            p["num_stops"] = rng.choice([2, 4, 5])
        if family == "pdtw":
            set_windows_pd(rng, g)
            p["time_windows"] = True
        lp_only = True
    elif family == "periodic":
        span = rng.randint(2, 4)
        A = attrs(g)
        set_demands(rng, g, cust)
        for v in cust:
            if rng.random() < 0.6:
                A[v]["frequency"] = rng.randint(1, span)
        p["periodic"] = span
        if rng.random() < 0.6:
            p["load_capacity"] = set_capacity(rng, g, cust)
        if rng.random() < 0.5:
            p["num_stops"] = rng.randint(1, 4)
    elif family == "mixed":
        K = rng.choice([2, 2, 3])
        set_demands(rng, g, cust)
        base = set_capacity(rng, g, cust)
        A = attrs(g)
        mx = max(A[v]["demand"] for v in cust)
        caps = [base] + [max(1, int(base * rng.choice([0.5, 0.8, 1.5, 2.0]))) for _ in range(K - 1)]
        rng.shuffle(caps)
        if max(caps) < mx:
            caps[rng.randrange(K)] = mx
        p["load_capacity"] = caps
        p["mixed_fleet"] = True
        to_mixed(rng, g, K)
        if rng.random() < 0.5:
            p["fixed_cost"] = [rng.randint(0, 30) for _ in range(K)]
            if not any(p["fixed_cost"]):
                del p["fixed_cost"]
    else:
        raise ValueError(family)
    if family not in ("mixed",) and rng.random() < 0.25:
        p["fixed_cost"] = rng.randint(1, 50)
    return g, p, lp_only


def set_windows_pd(rng, g):
    A, E = attrs(g), edict(g)
    reqs = [(p, A[p]["request"]) for p in A if "request" in A[p]]
    need = 0
    for p, d in reqs:
        need = max(need, E[SOURCE, p].get("time", 0) + A[p].get("service_time", 0) + E[p, d].get("time", 0)
                   + A[d].get("service_time", 0) + E[d, SINK].get("time", 0))
    H = int(need * rng.choice([1.5, 2.5, 4]) + 10)
    A[SOURCE]["upper"] = H
    A[SINK]["upper"] = H
    for p, d in reqs:
        tp = int(math.ceil(E[SOURCE, p].get("time", 0)))
        rest = (A[p].get("service_time", 0) + E[p, d].get("time", 0)
                + A[d].get("service_time", 0) + E[d, SINK].get("time", 0))
        up = rng.randint(tp, max(tp, int(math.floor(H - rest))))
        lo = rng.randint(0, up)
        A[p]["lower"], A[p]["upper"] = lo, up
        start = max(lo, tp)
        td = int(math.ceil(start + A[p].get("service_time", 0) + E[p, d].get("time", 0)))
        lat = int(math.floor(H - A[d].get("service_time", 0) - E[d, SINK].get("time", 0)))
        upd = rng.randint(td, max(td, lat))
        A[d]["lower"], A[d]["upper"] = rng.randint(0, upd), upd


# --------------------------------------------------------------------------
# composable instances
# --------------------------------------------------------------------------
CONFLICTS = [("sdc", "pd"), ("periodic", "drop")]


def pick_features(rng, require=(), allow=(), p=0.35):
    """A compatible feature set that contains `require`."""
    f = set(require)
    cand = [a for a in allow if a not in f]
    rng.shuffle(cand)
    for a in cand:
        if rng.random() > p:
            continue
        if any((a == x and y in f) or (a == y and x in f) for x, y in CONFLICTS):
            continue
        f.add(a)
    if "sdc" in f or "pd" in f:
        f.add("cap")
    if "useall" in f:
        f.add("fleet")
    if "mixed" in f and not f & {"cap", "fixed", "fleet"}:
        f.add("cap")
    return f


def compose(rng, features, n=None, **kw):
    """Well-posed instance (every customer can be served alone) with these features."""
    f = features
    p = {}
    if "pd" in f:
        n = n or rng.choice([2, 4, 4, 6])
    g, cust = base_graph(rng, n=n, **kw)
    A = attrs(g)
    if "pd" in f:
        cust, cap = set_pd(rng, g, cust)
        A = attrs(g)
        p["pickup_delivery"] = True
        p["load_capacity"] = cap
    elif "sdc" in f:
        cap = rng.randint(6, 20)
        set_sdc(rng, g, cust, cap)
        p["load_capacity"] = cap
        p["distribution_collection"] = True
    elif "cap" in f or rng.random() < 0.2:
        set_demands(rng, g, cust)
        if "cap" in f:
            p["load_capacity"] = set_capacity(rng, g, cust)
    if rng.random() < 0.1:
        A[SOURCE]["demand"] = rng.randint(0, 5)
    if "stops" in f:
        p["num_stops"] = rng.choice([2, 4, 5]) if "pd" in f else rng.randint(1, 4)
    if "dur" in f:
        if "pd" in f:
            E = edict(g)
            need = max(E[SOURCE, a]["time"] + E[a, A[a]["request"]]["time"] + E[A[a]["request"], SINK]["time"]
                       + A[a].get("service_time", 0) + A[A[a]["request"]].get("service_time", 0)
                       for a in A if "request" in A[a])
            p["duration"] = max(1, int(math.ceil(need * rng.choice([1.0, 1.2, 1.6, 2.2]))))
        else:
            p["duration"] = set_duration(rng, g, cust)
    if "tw" in f:
        p["time_windows"] = True
        if "pd" in f:
            set_windows_pd(rng, g)
        else:
            set_windows(rng, g, cust)
    if "periodic" in f:
        span = rng.randint(2, 4)
        p["periodic"] = span
        for v in cust:
            if rng.random() < 0.6:
                A[v]["frequency"] = rng.randint(1, span)
        if "pd" in f:  # a delivery is as frequent as its pickup
            for v in cust:
                if "request" in A[v]:
                    A[A[v]["request"]]["frequency"] = A[v].setdefault("frequency", 1)
    K = 1
    if "mixed" in f:
        K = rng.choice([2, 2, 3])
        p["mixed_fleet"] = True
        to_mixed(rng, g, K)
        if "load_capacity" in p:
            base = p["load_capacity"]
            mx = int(math.ceil(max([A[v].get("demand", 0) for v in cust]
                                   + [A[v].get("collect", 0) for v in cust] + [1])))
            caps = [base] + [max(1, int(base * rng.choice([0.5, 0.8, 1.5, 2.0]))) for _ in range(K - 1)]
            rng.shuffle(caps)
            if max(caps) < mx:
                caps[rng.randrange(K)] = mx
            p["load_capacity"] = caps
        if "fixed" in f:
            fc = [rng.randint(0, 30) for _ in range(K)]
            fc[rng.randrange(K)] += 1
            p["fixed_cost"] = fc
    elif "fixed" in f:
        p["fixed_cost"] = rng.randint(1, 50)
    if "fleet" in f:
        n_c = len(cust)
        if "mixed" in f:
            p["num_vehicles"] = [rng.randint(1, max(1, n_c)) for _ in range(K)]
        else:
            p["num_vehicles"] = rng.randint(1, n_c)
        if "useall" in f:
            p["use_all_vehicles"] = True
    if "drop" in f:
        p["drop_penalty"] = rng.choice([1, 5, 15, 40, 100, 1000])
    if "span" in f:
        p["minimize_global_span"] = True
    return g, p
