"""C10 tables, C11 queries, C12 aggregates of ResultAnalyzer."""
from copy import deepcopy

from common import *

NUM = {"cons": ["cost", "asked", "given"], "prod": ["cost", "avail", "used"],
       "stor": ["max_capacity", "capacity", "max_flow_in", "flow_in", "max_flow_out", "flow_out", "cost", "init_capacity", "eff"],
       "link": ["cost", "avail", "used"], "dst": ["cost", "max", "flow"], "src": ["ratio", "max", "flow"]}
TABLE = {"cons": "consumption", "prod": "production", "stor": "storage", "link": "link", "src": "src_converter", "dst": "dest_converter"}
CALL = {"cons": "consumption", "prod": "production", "stor": "storage", "link": "link", "src": "to_converter", "dst": "from_converter"}


def reference(d, r):
    """kind -> {(network, node, id, scn, t): {column: value}} computed from the description and the result arrays"""
    T = {k: {} for k in NUM}
    for s in range(d["s"]):
        for t in range(d["h"]):
            for n, nodes in d["nets"]:
                for m, e in nodes:
                    o = r.networks[n].nodes[m]
                    for i, x in enumerate(e["cons"]):
                        T["cons"][n, m, x["name"], s, t] = {"cost": at(x["cost"], s, t), "asked": at(x["qty"], s, t), "given": o.consumptions[i].quantity[s, t]}
                    for i, x in enumerate(e["prod"]):
                        T["prod"][n, m, x["name"], s, t] = {"cost": at(x["cost"], s, t), "avail": at(x["qty"], s, t), "used": o.productions[i].quantity[s, t]}
                    for i, x in enumerate(e["stor"]):
                        z = o.storages[i]
                        T["stor"][n, m, x["name"], s, t] = {"max_capacity": at(x["capacity"], s, t), "capacity": z.capacity[s, t], "max_flow_in": at(x["flow_in"], s, t), "flow_in": z.flow_in[s, t],
                                                            "max_flow_out": at(x["flow_out"], s, t), "flow_out": z.flow_out[s, t], "cost": at(x["cost"], s, t), "init_capacity": x["init"], "eff": at(x["eff"], s, t)}
                    for i, x in enumerate(e["link"]):
                        T["link"][n, m, x["dest"], s, t] = {"cost": at(x["cost"], s, t), "avail": at(x["qty"], s, t), "used": o.links[i].quantity[s, t]}
            for c in d["convs"]:
                o = r.converters[c["name"]]
                T["dst"][c["dest"][0], c["dest"][1], c["name"], s, t] = {"cost": at(c["cost"], s, t), "max": at(c["max"], s, t), "flow": o.flow_dest[s, t]}
                for a, b, q in c["src"]:
                    T["src"][a, b, c["name"], s, t] = {"ratio": at(q, s, t), "max": at(c["max"], s, t) / at(q, s, t), "flow": o.flow_src[a, b][s, t]}
    return T


def same(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))


def setup(c):
    d = c["desc"]
    st = build(d)
    r = fake_result(d, random.Random(c["seed"]))
    from hadar import ResultAnalyzer

    before = (study_image(st), result_image(r))
    a = ResultAnalyzer(st, r)
    dd = diff(study_image(st), before[0], "study") or diff(result_image(r), before[1], "result")
    need(dd is None, "the analyzer changed its inputs: %s", dd)
    return d, st, r, a


def idcol(k):
    return "dest" if k == "link" else "name"


def c10_check(c):
    d, st, r, a = setup(c)
    ref = reference(d, r)
    for k in NUM:
        df = getattr(a, TABLE[k])
        exp = ref[k]
        need(len(df) == len(exp), "table %s has %d rows for %d (element, scenario, step)", TABLE[k], len(df), len(exp))
        seen = set()
        cols = {x: df[x].tolist() for x in NUM[k] + ["network", "node", idcol(k), "scn", "t"]} if len(df) else {}
        for i in range(len(df)):
            key = (cols["network"][i], cols["node"][i], cols[idcol(k)][i], cols["scn"][i], cols["t"][i])
            need(key in exp, "table %s has a row %s that no element has", TABLE[k], key)
            key = next(q for q in (key,) if q in exp)
            need(key not in seen, "table %s has two rows %s", TABLE[k], key)
            seen.add(key)
            for x in NUM[k]:
                need(same(cols[x][i], exp[key][x]), "table %s row %s: %s is %r, expected %r", TABLE[k], key, x, cols[x][i], float(exp[key][x]))


# ------------------------------------------------------------------------------------------ C11
def gen_int_filter(rng, n):
    r = rng.random()
    if r < 0.25:
        return None
    if r < 0.45:
        return ["v", rng.randrange(n)]
    if r < 0.6:
        l = rng.sample(range(n), rng.randint(1, n))
        return ["l", l + ([rng.choice(l)] if rng.random() < 0.15 else [])]
    if r < 0.65:
        return ["l", []]
    a = rng.choice([None, None, 0, rng.randrange(n + 1)])
    b = rng.choice([None, None, n, rng.randrange(n + 1), n + 2])
    st = rng.choice([None, None, None, 1, 2, 3])
    return ["s", a, b, st]


def gen_str_filter(rng, vals):
    r = rng.random()
    vals = sorted(set(vals)) or ["zz"]
    if r < 0.3:
        return None
    if r < 0.65:
        return ["v", rng.choice(vals + (["zz"] if rng.random() < 0.2 else []))]
    l = rng.sample(vals, rng.randint(1, len(vals))) + (["zz"] if rng.random() < 0.1 else [])
    return ["l", l + ([rng.choice(l)] if rng.random() < 0.15 else [])]


def pyarg(f):
    if f is None:
        return None
    return f[1] if f[0] in ("v", "l") else slice(*f[1:])


def match(f, x):
    if f is None:
        return True
    if f[0] == "v":
        return x == f[1]
    if f[0] == "l":
        return x in f[1] or f[1] == []
    a, b, st = f[1:]
    a, st = a or 0, st or 1
    return x >= a and (b is None or x < b) and (x - a) % st == 0


def alone(f):
    if f is None:
        return False
    if f[0] == "v":
        return True
    if f[0] == "l":
        return len(f[1]) == 1
    a, b, st = f[1:]
    return b is not None and len(range(a or 0, b, st or 1)) == 1


def gen_query(rng, d):
    kinds = [k for k in NUM]
    k = rng.choice(kinds)
    ids = {"cons": [x["name"] for _, nd in d["nets"] for _, e in nd for x in e["cons"]], "prod": [x["name"] for _, nd in d["nets"] for _, e in nd for x in e["prod"]],
           "stor": [x["name"] for _, nd in d["nets"] for _, e in nd for x in e["stor"]], "link": [x["dest"] for _, nd in d["nets"] for _, e in nd for x in e["link"]],
           "src": [c["name"] for c in d["convs"]], "dst": [c["name"] for c in d["convs"]]}[k]
    f = {"network": gen_str_filter(rng, [n for n, _ in d["nets"]]), "node": gen_str_filter(rng, [m for _, nd in d["nets"] for m, _ in nd]),
         "scn": gen_int_filter(rng, d["s"]), "t": gen_int_filter(rng, d["h"]), "id": gen_str_filter(rng, ids)}
    order = ["node", "scn", "t", "id"]
    rng.shuffle(order)
    return {"k": k, "f": f, "order": order}


def step(sel, what, q):
    arg = pyarg(q["f"][what])
    m = getattr(sel, {"node": "node", "scn": "scn", "t": "time", "id": CALL[q["k"]]}[what])
    return m(arg) if arg is not None else m()


def check_query(q, got, exp):
    k = q["k"]
    rows = {key: v for key, v in exp.items() if match(q["f"]["network"], key[0]) and match(q["f"]["node"], key[1]) and match(q["f"]["id"], key[2]) and match(q["f"]["scn"], key[3]) and match(q["f"]["t"], key[4])}
    need(isinstance(got, pd.DataFrame), "query %s gives %s", q, type(got).__name__)
    need(len(got) == len(rows), "query %s gives %d rows, expected %d", q, len(got), len(rows))
    if not rows:
        return
    levels = ["network"] + q["order"]
    while len(levels) > 1 and alone(q["f"][levels[0]]):
        levels = levels[1:]
    names = [idcol(k) if x == "id" else x for x in levels]
    need(list(got.index.names) == names, "query %s is indexed by %s, expected %s", q, list(got.index.names), names)
    pos = {"network": 0, "node": 1, "id": 2, "scn": 3, "t": 4}
    want = {}
    for key, v in rows.items():
        want[tuple(key[pos[x]] for x in levels)] = v
    need(len(want) == len(rows), "internal: ambiguous reference")
    need(set(NUM[k]) <= set(got.columns), "query %s has columns %s", q, list(got.columns))
    cols = {x: got[x].tolist() for x in NUM[k]}
    seen = set()
    for i, idx in enumerate(got.index.tolist()):
        idx = idx if isinstance(idx, tuple) else (idx,)
        need(idx in want and idx not in seen, "query %s has an unexpected row %s", q, idx)
        seen.add(idx)
        for x in NUM[k]:
            need(same(cols[x][i], want[idx][x]), "query %s row %s: %s is %r, expected %r", q, idx, x, cols[x][i], float(want[idx][x]))


def c11_check(c):
    d, st, r, a = setup(c)
    ref = reference(d, r)
    keep = {k: getattr(a, TABLE[k]).copy(deep=True) for k in NUM}
    for q in c["queries"]:
        arg = pyarg(q["f"]["network"])
        sel = a.network(arg)
        stops = {}
        for j, w in enumerate(q["order"]):
            stops[j] = sel
            sel = step(sel, w, q)
        check_query(q, sel, ref[q["k"]])
        # reuse a partial query for another one
        j = c["seed"] % 4
        q2 = dict(q)
        w = q["order"][j]
        if w == "id":
            q2 = dict(q, k=c["other"], f=dict(q["f"], id=None))
        else:
            q2 = dict(q, f=dict(q["f"], **{w: None}))
        sel = stops[j]
        for w in q["order"][j:]:
            sel = step(sel, w, q2)
        check_query(q2, sel, ref[q2["k"]])
        sel = stops[j]
        for w in q["order"][j:]:
            sel = step(sel, w, q)
        check_query(q, sel, ref[q["k"]])
    for k in NUM:
        need(keep[k].equals(getattr(a, TABLE[k])), "a query changed the table %s", TABLE[k])


# ------------------------------------------------------------------------------------------ C12
def c12_check(c):
    d, st, r, a = setup(c)
    S, H = d["s"], d["h"]
    keep = {k: getattr(a, TABLE[k]).copy(deep=True) for k in NUM}
    ref = reference(d, r)
    cost, bal, rac = {}, {}, {}
    for n, nodes in d["nets"]:
        rac[n] = np.zeros((S, H))
        for m, e in nodes:
            cost[n, m] = np.zeros((S, H))
            bal[n, m] = np.zeros((S, H))
    for (n, m, i, s, t), v in ref["cons"].items():
        cost[n, m][s, t] += (v["asked"] - v["given"]) * v["cost"]
        rac[n][s, t] -= v["asked"] - v["given"]
    for (n, m, i, s, t), v in ref["prod"].items():
        cost[n, m][s, t] += v["used"] * v["cost"]
        rac[n][s, t] += v["avail"] - v["used"]
    for (n, m, i, s, t), v in ref["stor"].items():
        cost[n, m][s, t] += v["capacity"] * v["cost"]
    for (n, m, i, s, t), v in ref["link"].items():
        cost[n, m][s, t] += v["used"] * v["cost"]
        bal[n, m][s, t] += v["used"]
        bal[n, i][s, t] -= v["used"]
    for (n, m, i, s, t), v in ref["dst"].items():
        cost[n, m][s, t] += v["flow"] * v["cost"]

    def eq(got, exp, what):
        got = np.asarray(got, dtype=float)
        need(got.shape == exp.shape, "%s has shape %s, expected %s", what, got.shape, exp.shape)
        need(np.allclose(got, exp, rtol=1e-9, atol=1e-6), "%s is %s, expected %s", what, got.tolist(), exp.tolist())

    def counts(n, m):
        e = dict(dict((x, dict(y)) for x, y in d["nets"])[n])[m]
        return np.array([len(e["cons"]), len(e["prod"]), len(e["stor"]), len(e["link"]), sum([n, m] in [[p, q] for p, q, _ in x["src"]] for x in d["convs"]), sum(x["dest"] == [n, m] for x in d["convs"])], dtype=float)

    allc = np.zeros((S, H))
    allk = np.zeros(6)
    for n, nodes in d["nets"]:
        netc = np.zeros((S, H))
        netk = np.zeros(6)
        for m, _ in nodes:
            eq(a.get_cost(node=m, network=n), cost[n, m], "get_cost(%r, %r)" % (m, n))
            eq(a.get_balance(node=m, network=n), bal[n, m], "get_balance(%r, %r)" % (m, n))
            eq(a.get_elements_inside(node=m, network=n), counts(n, m), "get_elements_inside(%r, %r)" % (m, n))
            if n == "default":
                eq(a.get_cost(node=m), cost[n, m], "get_cost(%r)" % m)
                eq(a.get_balance(node=m), bal[n, m], "get_balance(%r)" % m)
                eq(a.get_elements_inside(node=m), counts(n, m), "get_elements_inside(%r)" % m)
            netc += cost[n, m]
            netk += counts(n, m)
        eq(a.get_cost(network=n), netc, "get_cost(network=%r)" % n)
        eq(a.get_elements_inside(network=n), netk, "get_elements_inside(network=%r)" % n)
        eq(a.get_rac(network=n), rac[n], "get_rac(%r)" % n)
        if n == "default":
            eq(a.get_rac(), rac[n], "get_rac()")
        need(list(a.nodes(n)) == [m for m, _ in nodes], "nodes(%r) is %s", n, a.nodes(n))
        allc += netc
        allk += netk
    eq(a.get_cost(), allc, "get_cost()")
    eq(a.get_elements_inside(), allk, "get_elements_inside()")
    need(a.horizon == H and a.nb_scn == S, "horizon/nb_scn are %r/%r", a.horizon, a.nb_scn)
    for k in NUM:
        need(keep[k].equals(getattr(a, TABLE[k])), "an aggregate changed the table %s", TABLE[k])


CHK = {"C10": c10_check, "C11": c11_check, "C12": c12_check}


def gen(prop, rng, i):
    d = gen_desc(rng, maxbig=20)
    for _, nodes in d["nets"]:  # tables hold a study and a result, which need not fit each other
        for _, e in nodes:
            for x in e["stor"]:
                if rng.random() < 0.15:
                    x["init"] = rng.choice([75.5, 4000])
    c = {"desc": d, "seed": rng.randint(0, 10 ** 9)}
    if prop == "C11":
        c["queries"] = [gen_query(rng, d) for _ in range(10)]
        c["other"] = rng.choice(list(NUM))
    return c


def run(prop, rng, i):
    c = json.loads(json.dumps(gen(prop, rng, i)))
    try:
        CHK[prop](c)
    except Exception as ex:
        raise Failure.wrap(ex, c)
    return c, sum(len(e[k]) for _, nd in c["desc"]["nets"] for _, e in nd for k in e) >= 2


def replay(prop, case):
    CHK[prop](case)
