"""C01..C06 on results of the real optimizer."""
from common import *


def solved(case):
    """build and solve a feasible study; None when the oracle says some scenario has no solution"""
    desc = case["desc"]
    if "feasible" not in case:
        case["oracle"] = [oracle(desc, s) for s in range(desc["s"])]
        case["feasible"] = all(o[0] == "optimal" for o in case["oracle"])
    if not case["feasible"]:
        return None
    g = case.get("grow")
    if g:  # a study solved, completed, and solved again
        n, m, k = g
        small = json.loads(json.dumps(desc))
        x = dict(small["nets"])[n]
        x = dict(x)[m][k].pop()
        st = build(small)
        try:
            first = solve(st)
        except ValueError:
            first = None
        img = result_image(first) if first is not None else None
        if k == "link":
            st.add_link(network=n, src=m, dest=x["dest"], cost=raw(x["cost"]), quantity=raw(x["qty"]))
        else:
            put(st.network(n).node(m), k, x)
    else:
        st = build(desc)
    case["study"] = st
    case["before"] = study_image(st)
    try:
        res = solve(st, real_pool=case.get("real_pool", False))
    except ValueError as ex:
        if ("scale" in desc or any(0 < abs(c) < 0.01 for c in NEW_NUMS)) and str(ex).startswith("No solution found"):
            return None  # the solver gives up on some studies with very large and very small numbers (an assumption on the solver)
        raise
    if g and img is not None:
        d = diff(result_image(first), img, "result")
        need(d is None, "solving again changed the first result: %s", d)
    return res


def unit(case):
    """size of the quantities of a study, for the tolerances"""
    return max(1.0, case["desc"].get("scale", [1, 1])[0])


def worth(case):
    q, c = case["desc"].get("scale", [1, 1])
    return max(1.0, q) * max(1.0, c)


def near_to(case, a, b):
    return abs(a - b) <= TOL * max(unit(case), abs(a), abs(b))


def scaled(rng, d):
    """the same study in other units: quantities and costs multiplied by constants"""
    big = [abs(c) for c in NEW_NUMS if abs(c) >= 100]
    q = rng.choice(big) / rng.choice([2, 10, 30]) if big and rng.random() < 0.6 else rng.choice([0.02, 100, 1000, 1e5, 1e6])
    c = 1 if rng.random() < 0.6 else rng.choice(big) / rng.choice([2, 20, 100]) if big and rng.random() < 0.6 else rng.choice([0.05, 100, 1000])

    def mul(v, f):
        if isinstance(v, dict):
            return dict(v, d=mul(v["d"], f))
        if isinstance(v, list):
            return [mul(x, f) for x in v]
        return round(v * f, 6) if f < 1 or not float(f).is_integer() else v * int(f)

    c = 100 if c > 2e4 else c
    flat = lambda v: [abs(v)] if not isinstance(v, (list, dict)) else flat(v["d"]) if isinstance(v, dict) else [y for x in v for y in flat(x)]
    els = [x for _, nodes in d["nets"] for _, e in nodes for k in e for x in e[k]] + d["convs"]
    top = max([1] + [y for x in els for k, v in x.items() if k in ("qty", "capacity", "flow_in", "flow_out", "init", "max") for y in flat(v)])
    if q * top > 2e8:
        q = 100
    keys = {"qty": q, "capacity": q, "flow_in": q, "flow_out": q, "init": q, "max": q, "cost": c}
    for x in els:
        for k, f in keys.items():
            if k in x:
                x[k] = mul(x[k], f)
    d["scale"] = [q, c]


def node_out(res, n, m):
    return res.networks[n].nodes[m]


def each(desc):
    for s in range(desc["s"]):
        for t in range(desc["h"]):
            for n, nodes in desc["nets"]:
                for m, e in nodes:
                    yield s, t, n, m, e


def c01(case, res):
    desc = case["desc"]
    for s, t, n, m, e in each(desc):
        o = node_out(res, n, m)
        left = sum(x.quantity[s, t] for x in o.productions) + sum(x.flow_out[s, t] for x in o.storages)
        right = sum(x.quantity[s, t] for x in o.consumptions) + sum(x.flow_in[s, t] for x in o.storages)
        for n2, nodes2 in desc["nets"]:
            if n2 != n:
                continue
            for m2, e2 in nodes2:
                for i, l in enumerate(e2["link"]):
                    f = node_out(res, n2, m2).links[i].quantity[s, t]
                    if m2 == l["dest"]:
                        continue
                    if l["dest"] == m:
                        left += f
                    if m2 == m:
                        right += f
        for c in desc["convs"]:
            oc = res.converters[c["name"]]
            if tuple(c["dest"]) == (n, m):
                left += oc.flow_dest[s, t]
            for a, b, _ in c["src"]:
                if (a, b) == (n, m):
                    right += oc.flow_src[a, b][s, t]
        need(near_to(case, left, right), "node %s/%s is not balanced at scn=%d t=%d: %r in, %r out", n, m, s, t, float(left), float(right))


def c02(case, res):
    desc = case["desc"]

    def lim(x, hi, what, s, t):
        need(-TOL * 10 * unit(case) <= x <= hi + TOL * max(10 * unit(case), abs(hi)), "%s at scn=%d t=%d is %r, limit is %r", what, s, t, float(x), hi)

    for s, t, n, m, e in each(desc):
        o = node_out(res, n, m)
        for i, x in enumerate(e["cons"]):
            lim(o.consumptions[i].quantity[s, t], at(x["qty"], s, t), "consumption %s/%s/%s" % (n, m, x["name"]), s, t)
        for i, x in enumerate(e["prod"]):
            lim(o.productions[i].quantity[s, t], at(x["qty"], s, t), "production %s/%s/%s" % (n, m, x["name"]), s, t)
        for i, x in enumerate(e["link"]):
            lim(o.links[i].quantity[s, t], at(x["qty"], s, t), "link %s/%s->%s" % (n, m, x["dest"]), s, t)
        for i, x in enumerate(e["stor"]):
            z = o.storages[i]
            lim(z.capacity[s, t], at(x["capacity"], s, t), "storage level %s/%s/%s" % (n, m, x["name"]), s, t)
            lim(z.flow_in[s, t], at(x["flow_in"], s, t), "storage flow in %s/%s/%s" % (n, m, x["name"]), s, t)
            lim(z.flow_out[s, t], at(x["flow_out"], s, t), "storage flow out %s/%s/%s" % (n, m, x["name"]), s, t)
    for s in range(desc["s"]):
        for t in range(desc["h"]):
            for c in desc["convs"]:
                oc = res.converters[c["name"]]
                mx = at(c["max"], s, t)
                lim(oc.flow_dest[s, t], mx, "converter %s output" % c["name"], s, t)
                for a, b, r in c["src"]:
                    lim(oc.flow_src[a, b][s, t], mx / at(r, s, t), "converter %s source %s/%s" % (c["name"], a, b), s, t)


def c03(case, res):
    desc = case["desc"]
    for s, t, n, m, e in each(desc):
        for i, x in enumerate(e["stor"]):
            z = node_out(res, n, m).storages[i]
            prev = x["init"] if t == 0 else z.capacity[s, t - 1]
            exp = prev + z.flow_in[s, t] * at(x["eff"], s, t) - z.flow_out[s, t]
            need(near_to(case, z.capacity[s, t], exp), "storage %s/%s/%s level at scn=%d t=%d is %r, dynamics give %r", n, m, x["name"], s, t, float(z.capacity[s, t]), float(exp))


def c04(case, res):
    desc = case["desc"]
    for c in desc["convs"]:
        oc = res.converters[c["name"]]
        for s in range(desc["s"]):
            for t in range(desc["h"]):
                for a, b, r in c["src"]:
                    exp = at(r, s, t) * oc.flow_src[a, b][s, t]
                    need(near_to(case, oc.flow_dest[s, t], exp), "converter %s source %s/%s at scn=%d t=%d: output %r, ratio * source %r", c["name"], a, b, s, t, float(oc.flow_dest[s, t]), float(exp))


def c05(case, res):
    desc = case["desc"]
    tot = 0.0
    for s in range(desc["s"]):
        c = total_cost(desc, res, s)
        tot += c
        best = case["oracle"][s][1]
        need(abs(c - best) <= 1e-4 * max(worth(case), abs(best)), "cost of scenario %d is %r, the optimum is %r", s, c, best)
    from hadar import ResultAnalyzer

    got = ResultAnalyzer(case["study"], res).get_cost()
    need(np.shape(got) == (desc["s"], desc["h"]), "get_cost shape %s", np.shape(got))
    need(abs(float(np.sum(got)) - tot) <= 1e-4 * max(worth(case), abs(tot)), "analyzer total cost %r, cost of the flows %r", float(np.sum(got)), tot)


def c06(case, res):
    desc = case["desc"]
    img = result_image(res)
    exp = [(n, [(m, [x["name"] for x in e["cons"]], [x["name"] for x in e["prod"]], [x["name"] for x in e["stor"]], [x["dest"] for x in e["link"]]) for m, e in nodes]) for n, nodes in desc["nets"]]
    got = [(n, [(m, [x[0] for x in a], [x[0] for x in b], [x[0] for x in c], [x[0] for x in d]) for m, a, b, c, d in nodes]) for n, nodes in img["networks"]]
    d = diff(got, exp, "result.networks")
    need(d is None, "structure: %s", d)
    d = diff([(k, nm, [x for x, _ in src]) for k, nm, src, _ in img["converters"]], [(c["name"], c["name"], [(a, b) for a, b, _ in c["src"]]) for c in desc["convs"]], "result.converters")
    need(d is None, "structure: %s", d)
    shape = (desc["s"], desc["h"])
    for n, nodes in res.networks.items():
        for m, nd in nodes.nodes.items():
            for x in list(nd.consumptions) + list(nd.productions) + list(nd.links):
                need(np.shape(x.quantity) == shape, "shape of %s/%s is %s", n, m, np.shape(x.quantity))
            for x in nd.storages:
                for a in (x.capacity, x.flow_in, x.flow_out):
                    need(np.shape(a) == shape, "shape of %s/%s/%s is %s", n, m, x.name, np.shape(a))
    for c in res.converters.values():
        for a in [c.flow_dest] + list(c.flow_src.values()):
            need(np.shape(a) == shape, "shape of converter %s is %s", c.name, np.shape(a))
    d = diff(study_image(case["study"]), case["before"], "study")
    need(d is None, "solving changed the study: %s", d)
    # each row is an optimal solution of its own scenario
    for f in (c01, c02, c03, c04):
        f(case, res)
    for s in range(desc["s"]):
        c, best = total_cost(desc, res, s), case["oracle"][s][1]
        need(abs(c - best) <= 1e-4 * max(worth(case), abs(best)), "row %d is not an optimum of scenario %d alone: cost %r, optimum %r", s, s, c, best)


CHECK = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}


def infeasible_case(rng):
    """a scenario where the initial level can neither be stored nor flow out"""
    d = gen_desc(rng)
    n, nodes = rng.choice(d["nets"])
    m, e = rng.choice(nodes)
    cap, fo = rng.randint(1, 10), rng.randint(0, 5)
    x = {"name": "full", "capacity": const(cap), "flow_in": const(3), "flow_out": const(fo), "cost": const(0), "init": cap + fo + rng.randint(1, 30), "eff": const(1)}
    e["stor"] = [y for y in e["stor"] if y["name"] != "full"]
    e["stor"].insert(rng.randint(0, len(e["stor"])), x)
    if rng.random() < 0.5 and d["s"] > 1:  # only one scenario is infeasible
        bad = rng.randrange(d["s"])
        x["capacity"] = {"k": "col", "d": [[cap if i == bad else x["init"] + 1] for i in range(d["s"])], "f": "list"}
    return d


def focus(rng, prop):
    """cases aimed at the elements of a property"""
    d = gen_desc(rng, wide=rng.choice(["s", "s", "h"]) if prop == "C06" and rng.random() < 0.05 else None)
    if prop == "C03":
        n, nodes = rng.choice(d["nets"])
        m, e = rng.choice(nodes)
        V = lambda lo, hi, **k: gen_value(rng, d["h"], d["s"], lo, hi, **k)
        un = [x["name"] for x in e["stor"]]
        for _ in range(rng.randint(1, 3)):
            x = name(rng, un)
            un.append(x)
            e["stor"].append({"name": x, "capacity": V(20, 60), "flow_in": V(0, 30), "flow_out": V(0, 30), "cost": V(-8, 4), "init": rng.randint(0, 20), "eff": V(0.3, 1, integer=False)})
    if prop == "C04" and not d["convs"]:
        return focus(rng, prop)
    return d


def run(prop, rng, i):
    if prop == "C06" and i % 6 == 5:
        d = infeasible_case(rng)
        st = build(d)
        try:
            solve(st)
        except Violation:
            raise
        except Exception:
            return {"kind": "infeasible", "desc": d}, True
        raise_desc = {"kind": "infeasible", "desc": d}
        raise Failure("a study without solution gave a result", raise_desc)
    d = focus(rng, prop)
    if rng.random() < (0.3 if any(abs(c) >= 100 for c in NEW_NUMS) else 0.1):
        scaled(rng, d)
    case = {"desc": d, "real_pool": i % 25 == 3}
    if rng.random() < 0.12:
        els = [[n, m, k] for n, nodes in d["nets"] for m, e in nodes for k in e if e[k]]
        if els:
            case["grow"] = rng.choice(els)
    try:
        res = solved(case)
        if res is None:
            return {"desc": d}, False
        CHECK[prop](case, res)
    except Exception as ex:
        raise Failure.wrap(ex, {"desc": d, "real_pool": case["real_pool"], "grow": case.get("grow")})
    n = sum(len(e[k]) for _, nodes in d["nets"] for _, e in nodes for k in e)
    return {"desc": d}, n >= 3


def replay(prop, case):
    d = case["desc"]
    if case.get("kind") == "infeasible":
        try:
            solve(build(d))
        except Exception:
            return
        raise Violation("a study without solution gave a result")
    c = {"desc": d, "real_pool": case.get("real_pool", False), "grow": case.get("grow")}
    res = solved(c)
    if res is not None:
        CHECK[prop](c, res)
