"""Reference optimum and LP bound over the enumerated feasible routes."""
import pulp
from . import run as R


def _prob(m, best, integer, sense="ge"):
    prob = pulp.LpProblem("ref", pulp.LpMinimize)
    xs = {}
    cat = pulp.LpInteger if integer else pulp.LpContinuous
    keys = list(best)
    for i, key in enumerate(keys):
        ub = 1 if not m.periodic else None
        xs[key] = pulp.LpVariable("x%d" % i, 0, ub, cat)
    drops = {}
    if m.drop:
        for i, v in enumerate(m.customers):
            drops[v] = pulp.LpVariable("d%d" % i, 0, 1, cat)
    prob += pulp.lpSum(best[k][0] * xs[k] for k in keys) + (m.drop or 0) * pulp.lpSum(drops.values())
    for v in m.customers:
        f = m.node[v]["frequency"] if m.periodic else 1
        e = pulp.lpSum(xs[k] for k in keys if v in k[1]) + (drops[v] if m.drop else 0)
        prob += (e >= f) if sense == "ge" else (e == f)
    if m.nveh and not m.periodic:
        for k in range(m.K):
            e = pulp.lpSum(xs[key] for key in keys if key[0] == k)
            prob += (e == m.nveh[k]) if m.use_all else (e <= m.nveh[k])
    return prob, xs, drops


def solve_ref(m, best, integer, sense):
    """Returns (status, value, chosen) ; status 1 = optimal, -1 = infeasible."""
    with R.untraced():
        prob, xs, drops = _prob(m, best, integer, sense)
        prob.solve(pulp.PULP_CBC_CMD(msg=False))
        if prob.status != 1:
            return prob.status, None, None
        chosen = [(k, best[k][1]) for k in xs if xs[k].value() and xs[k].value() > 0.5] if integer else None
        return 1, pulp.value(prob.objective) or 0.0, chosen


def solve_span(m, cols):
    """Least possible largest cost (plus penalties) of a selection of the given [(frozenset, type, cost)]."""
    with R.untraced():
        prob = pulp.LpProblem("refspan", pulp.LpMinimize)
        z = pulp.LpVariable("z", 0)
        x = [pulp.LpVariable("x%d" % i, cat=pulp.LpBinary) for i in range(len(cols))]
        d = {v: pulp.LpVariable("d%d" % i, cat=pulp.LpBinary) for i, v in enumerate(m.customers)} if m.drop else {}
        prob += z + (m.drop or 0) * pulp.lpSum(d.values())
        for v in m.customers:
            prob += pulp.lpSum(x[i] for i, (s, _, _) in enumerate(cols) if v in s) + (d[v] if d else 0) == 1
        for i, (_, _, c) in enumerate(cols):
            prob += c * x[i] <= z
        if m.nveh:
            for k in range(m.K):
                e = pulp.lpSum(x[i] for i, (_, t, _) in enumerate(cols) if t == k)
                prob += (e == m.nveh[k]) if m.use_all else (e <= m.nveh[k])
        prob.solve(pulp.PULP_CBC_CMD(msg=False))
        return prob.status, pulp.value(prob.objective)
