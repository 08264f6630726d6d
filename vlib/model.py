"""Independent reference model of a vrpy problem.

Built from the *input* description of a case only (never from state the code
under test computed), so that every oracle judges the outputs of vrpy against
the problem the user posed.
"""
import itertools
import math

EPS = 1e-6
BIG = 1e10  # cost vrpy documents for missing round-trip edges

SOURCE, SINK = "Source", "Sink"


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else x


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Model:
    """The problem posed by (graph, params)."""

    def __init__(self, graph, params):
        p = dict(params)
        self.params = p
        self.mixed = bool(p.get("mixed_fleet"))
        self.num_stops = p.get("num_stops")
        cap = p.get("load_capacity")
        self.cap = None if not cap else (list(cap) if isinstance(cap, list) else [cap])
        self.duration = p.get("duration")
        self.tw = bool(p.get("time_windows"))
        self.pd = bool(p.get("pickup_delivery"))
        self.sdc = bool(p.get("distribution_collection"))
        self.drop = p.get("drop_penalty")
        fc = p.get("fixed_cost")
        self.fixed = None if not fc else (list(fc) if isinstance(fc, list) else [fc])
        nv = p.get("num_vehicles")
        self.nveh = None if not nv else (list(nv) if isinstance(nv, list) else [nv])
        self.use_all = bool(p.get("use_all_vehicles")) and bool(self.nveh)
        self.periodic = p.get("periodic")
        self.span = bool(p.get("minimize_global_span"))
        if self.mixed:
            self.K = len(self.cap or self.fixed or self.nveh or [0])
        else:
            self.K = 1
        self.node = {}
        self.order = []
        for name, attrs in graph["nodes"]:
            name = tup(name)
            self.order.append(name)
            a = dict(demand=0, collect=0, service_time=0, lower=0, upper=0, frequency=1)
            a.update(attrs)
            if name in (SOURCE, SINK):
                if a["demand"] > 0:
                    a["demand"] = 0
            self.node[name] = a
        self.edge = {}
        for u, v, attrs in graph["edges"]:
            u, v = tup(u), tup(v)
            c = attrs["cost"]
            c = list(c) if isinstance(c, list) else [c]
            self.edge[u, v] = (c, attrs.get("time", 0))
        self.given_edges = set(self.edge)
        self.customers = [v for v in self.order if v not in (SOURCE, SINK)]
        for v in self.customers:
            if (SOURCE, v) not in self.edge:
                self.edge[SOURCE, v] = ([BIG] * self.K, 0)
            if (v, SINK) not in self.edge:
                self.edge[v, SINK] = ([BIG] * self.K, 0)
        self.request = {v: tup(self.node[v]["request"]) for v in self.customers
                        if "request" in self.node[v]}
        self.delivery_of = {d: p_ for p_, d in self.request.items()}
        self.sink_upper = self.node[SINK]["upper"] if SINK in self.node else 0
        if self.sink_upper == 0:
            self.sink_upper = max(
                [self.node[u]["upper"] + self.node[u]["service_time"] + self.edge[u, SINK][1]
                 for u in self.node if (u, SINK) in self.edge] or [0])

    # ---- basic quantities -------------------------------------------------
    def upper(self, v):
        return self.sink_upper if v == SINK else self.node[v]["upper"]

    def cost(self, route, k=0):
        c = sum(self.edge[i, j][0][k] for i, j in zip(route[:-1], route[1:]))
        if self.fixed:
            c += self.fixed[k]
        return c

    def load(self, route):
        return sum(self.node[v]["demand"] for v in route)

    def dur(self, route):
        return (sum(self.edge[i, j][1] for i, j in zip(route[:-1], route[1:]))
                + sum(self.node[v]["service_time"] for v in route))

    def arrivals(self, route):
        t = {SOURCE: self.node[SOURCE]["lower"]}
        cur = t[SOURCE]
        out = [cur]
        for i, j in zip(route[:-1], route[1:]):
            cur = max(cur + self.node[i]["service_time"] + self.edge[i, j][1],
                      self.node[j]["lower"])
            out.append(cur)
        return out

    # ---- constraints on one route ----------------------------------------
    def structure_errors(self, route):
        e = []
        if not isinstance(route, (list, tuple)) or len(route) < 2:
            return ["route too short"]
        if route[0] != SOURCE or route[-1] != SINK:
            e.append("does not go from Source to Sink")
        inner = list(route[1:-1])
        if SOURCE in inner or SINK in inner:
            e.append("visits the depot in the middle")
        if len(set(inner)) != len(inner):
            e.append("visits a customer twice")
        if not inner:
            e.append("is empty")
        for i, j in zip(route[:-1], route[1:]):
            if (i, j) not in self.edge:
                e.append("uses edge (%r,%r) which is not in the input graph" % (i, j))
        return e

    def load_errors(self, route, k):
        if not self.cap or self.pd or self.sdc:
            return []
        q = self.cap[k]
        if self.load(route) > q + EPS:
            return ["load %s > capacity %s of vehicle type %s" % (self.load(route), q, k)]
        return []

    def sdc_errors(self, route, k):
        if not (self.sdc and self.cap):
            return []
        q = self.cap[k]
        load = self.load(route)
        e = []
        if load > q + EPS:
            e.append("initial load %s > capacity %s" % (load, q))
        for v in route[1:-1]:
            load += self.node[v]["collect"] - self.node[v]["demand"]
            if load > q + EPS:
                e.append("load %s leaving %r > capacity %s" % (load, v, q))
        return e

    def pd_errors(self, route, k):
        if not self.pd:
            return []
        e = []
        pos = {v: i for i, v in enumerate(route)}
        for p_, d in self.request.items():
            if (p_ in pos) != (d in pos):
                e.append("request %r->%r split between routes" % (p_, d))
            elif p_ in pos and pos[p_] > pos[d]:
                e.append("delivery %r before pickup %r" % (d, p_))
        if self.cap:
            load = 0
            for v in route:
                load += self.node[v]["demand"]
                if load > self.cap[k] + EPS:
                    e.append("load %s at %r > capacity %s" % (load, v, self.cap[k]))
                if load < -EPS:
                    e.append("negative load %s at %r" % (load, v))
        return e

    def stops_errors(self, route):
        if self.num_stops and len(route) - 2 > self.num_stops:
            return ["%s stops > num_stops %s" % (len(route) - 2, self.num_stops)]
        return []

    def duration_errors(self, route):
        if self.duration and self.dur(route) > self.duration + EPS:
            return ["duration %s > %s" % (self.dur(route), self.duration)]
        return []

    def tw_errors(self, route):
        if not self.tw:
            return []
        e = []
        for v, t in zip(route[1:], self.arrivals(route)[1:]):
            if t > self.upper(v) + EPS:
                e.append("arrival %s at %r after upper %s" % (t, v, self.upper(v)))
        return e

    def route_errors(self, route, k):
        e = self.structure_errors(route)
        if e:
            return e
        return (self.load_errors(route, k) + self.sdc_errors(route, k)
                + self.pd_errors(route, k) + self.stops_errors(route)
                + self.duration_errors(route) + self.tw_errors(route))

    # ---- enumeration ------------------------------------------------------
    def all_routes(self, k, limit=200000):
        """All feasible elementary routes of type k, by depth-first search.

        Pruning only uses quantities that cannot recover along a route.
        """
        out = []
        succ = {}
        for (i, j) in self.edge:
            succ.setdefault(i, []).append(j)
        q = self.cap[k] if self.cap else math.inf
        maxs = self.num_stops or len(self.customers)
        D = self.duration or math.inf
        node, edge = self.node, self.edge

        def rec(path, seen, load, dur, t):
            if len(out) > limit:
                raise RuntimeError("too many routes")
            u = path[-1]
            if len(path) > 1 and (u, SINK) in edge:
                r = path + [SINK]
                if not self.route_errors(r, k):
                    out.append(r)
            if len(path) - 1 >= maxs:
                return
            for v in succ.get(u, ()):
                if v == SINK or v in seen:
                    continue
                nl = load + node[v]["demand"]
                if nl > q + EPS:
                    continue
                if self.pd and v in self.delivery_of and self.delivery_of[v] not in seen:
                    continue
                nd = dur + edge[u, v][1] + node[v]["service_time"]
                if nd > D + EPS:
                    continue
                nt = max(t + node[u]["service_time"] + edge[u, v][1], node[v]["lower"])
                if self.tw and nt > node[v]["upper"] + EPS:
                    continue
                rec(path + [v], seen | {v}, nl, nd, nt)

        rec([SOURCE], frozenset(), 0, self.node[SOURCE]["service_time"], self.node[SOURCE]["lower"])
        return out

    def best_per_set(self, limit=200000):
        """{(k, frozenset): (cost, route)} cheapest feasible route per customer set and type."""
        best = {}
        for k in range(self.K):
            for r in self.all_routes(k, limit):
                key = (k, frozenset(r[1:-1]))
                c = self.cost(r, k)
                if key not in best or c < best[key][0] - 1e-12:
                    best[key] = (c, r)
        return best

    def shortest_times(self, v):
        """Shortest travel times from Source to v and from v to Sink."""
        import heapq

        def dijkstra(src, fwd):
            dist, heap, n = {src: 0}, [(0, 0, src)], 0
            while heap:
                d, _, u = heapq.heappop(heap)
                if d > dist.get(u, math.inf):
                    continue
                for (i, j), (_, t) in self.edge.items():
                    a, b = (i, j) if fwd else (j, i)
                    if a == u and d + t < dist.get(b, math.inf):
                        n += 1
                        dist[b] = d + t
                        heapq.heappush(heap, (d + t, n, b))
            return dist
        return dijkstra(SOURCE, True)[v], dijkstra(SINK, False)[v]

    # ---- orders of a customer set (for the column monitor) ----------------
    def orders(self, limit=20000):
        """{frozenset: [routes]} every elementary Source-Sink path of the graph, or None if too many."""
        if getattr(self, "_orders", 0) != 0:
            return self._orders
        succ = {}
        for (i, j) in self.edge:
            succ.setdefault(i, []).append(j)
        out, count = {}, 0
        stack = [([SOURCE], frozenset())]
        while stack:
            path, seen = stack.pop()
            u = path[-1]
            if seen and (u, SINK) in self.edge:
                out.setdefault(seen, []).append(path + [SINK])
                count += 1
                if count > limit:
                    self._orders = None
                    return None
            for v in succ.get(u, ()):
                if v != SINK and v not in seen:
                    stack.append((path + [v], seen | {v}))
        self._orders = out
        return out
