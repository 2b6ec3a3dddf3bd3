"""C07 numerical values, C08 study building, C09 JSON round trips."""
from copy import deepcopy

from common import *
from lp import solved


# ------------------------------------------------------------------------------------------ C07
def c07(rng, i):
    from hadar.optimizer.domain.numeric import NumericalValueFactory

    h, s = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 5])
    if rng.random() < 0.25:
        h = rng.choice(INTS + [24])
    if rng.random() < 0.15:
        s = rng.choice(INTS + [24])
    if rng.random() < 0.2:
        s = h
    sizes = [int(c) for c in NEW_NUMS if 2 <= c <= 9000 and float(c).is_integer()]
    if rng.random() < (0.15 if sizes else 0.01):  # one long dimension
        n = max(1, rng.choice(sizes) + rng.choice([-1, 0, 1, 2]) if sizes else rng.choice([168, 365, 1001, 8760]))
        h, s = (n, rng.choice([1, 2])) if rng.random() < 0.6 else (rng.choice([1, 2]), n)
    v = gen_value(rng, h, s, rng.choice([-50, 0, 0]), rng.choice([0, 50, 1000]))
    bad = None
    if rng.random() < 0.3:
        bad = rng.choice(["h+1", "h-1", "s+1", "T", "3d", "str", "none", "0d", "col+1", "empty", "set", "flat", "1h", "s1T"])
    return {"h": h, "s": s, "v": v, "bad": bad, "via": rng.choice(["factory", "study"])}, True


def near_values(x, h, s):
    """other data for the same factory, close to this one"""
    out = [1, 1.0, 0, np.ones(h), [1.0] * h]
    if type(x) in (int, float):
        out += [x + 1e-7, x * (1 + 1e-9), -x, int(x), float(x)]
    elif isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size:
        y = x.copy()
        y[tuple(-1 for _ in x.shape)] += 1
        if y.shape in ((h,), (s, 1), (s, h)):
            out.append(y)
    return out


def c07_check(c):
    from hadar.optimizer.domain.numeric import NumericalValueFactory

    h, s, v = c["h"], c["s"], c["v"]

    def create(x):
        if c["via"] == "factory":
            fac = NumericalValueFactory(horizon=h, nb_scn=s)
            for y in near_values(x, h, s):  # a factory makes many values
                fac.create(y)
            return fac.create(x)
        st = Study(horizon=h, nb_scn=s)
        st.network("n").node("m").production(name="p", cost=x, quantity=1)
        return st.networks["n"].nodes["m"].productions[0].cost

    if c["bad"]:
        ok = {(h,), (s, 1), (s, h)}
        obj, shape = None, None
        mk = lambda *sh: np.arange(int(np.prod(sh)), dtype=float).reshape(sh)
        b = c["bad"]
        shape = {"h+1": (h + 1,), "h-1": (max(h - 1, 0),), "s+1": (s + 1, h), "T": (h, s), "3d": (s, h, 1), "0d": (), "col+1": (s + 1, 1), "empty": (0,), "flat": (s * h + 1,), "1h": (1, h), "s1T": (1, s)}.get(b)
        if shape is not None:
            if shape in ok:
                return
            obj = np.array(3.0) if shape == () else mk(*shape)
            if b in ("h+1", "s+1", "T", "1h", "s1T") and (h + s) % 2:
                obj = obj.tolist()
        else:
            obj = {"str": "12", "none": None, "set": {1, 2}}[b]
        try:
            create(obj)
        except ValueError:
            return
        except Exception as ex:
            raise Violation("data %r for horizon=%d nb_scn=%d raised %s instead of ValueError" % (obj, h, s, type(ex).__name__))
        raise Violation("data %r accepted for horizon=%d nb_scn=%d" % (obj, h, s))
    x = raw(v)
    keep = deepcopy(x)
    n = create(x)
    same = (x == keep) if not hasattr(x, "shape") else bool(np.array_equal(np.array(x), np.array(keep)))
    need(same, "creating a value changed the data given")
    flat = np.array(n.flatten())
    need(flat.shape == (h * s,), "flatten has shape %s for horizon=%d nb_scn=%d", flat.shape, h, s)
    ents = []
    for a in range(s):
        for b in range(h):
            e = at(v, a, b)
            ents.append(e)
            need(n[a, b] == e, "value[%d, %d] is %r, expected %r (%s)", a, b, n[a, b], e, v["k"])
            need(flat[a * h + b] == e, "flatten()[%d] is %r, expected %r (%s)", a * h + b, flat[a * h + b], e, v["k"])
    for a, b in ((s, 0), (0, h), (s + 3, h - 1), (s - 1, h + 5), (s, h)):
        try:
            r = n[a, b]
        except IndexError:
            continue
        except Exception as ex:
            raise Violation("value[%d, %d] raised %s" % (a, b, type(ex).__name__))
        raise Violation("value[%d, %d] is %r with horizon=%d nb_scn=%d" % (a, b, r, h, s))
    mid = ents[len(ents) // 2]
    for thr in {min(ents) - 1, min(ents), mid, max(ents), max(ents) + 1, 0, 1}:
        for op, f, g in (("<", n.__lt__, lambda e: e < thr), ("<=", n.__le__, lambda e: e <= thr), (">", n.__gt__, lambda e: e > thr), (">=", n.__ge__, lambda e: e >= thr)):
            need(bool(f(thr)) == all(g(e) for e in ents), "value %s %r is %r for %s", op, thr, f(thr), v)
    again = NumericalValueFactory(horizon=h, nb_scn=s).create(n)
    need(all(again[a, b] == at(v, a, b) for a in range(s) for b in range(h)), "create() of a numerical value changed it")


# ------------------------------------------------------------------------------------------ C08
def c08(rng, i):
    """a random history of builder calls; each op is plain data"""
    h, s = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    nets = [name(rng) for _ in range(2)] + ["default"]
    long = rng.random() < (0.4 if NEW_INTS else 0.1)
    wide = 3 if not long else near(rng, 40) or rng.randint(4, 14)
    nodes = []
    while len(nodes) < (3 if rng.random() < 0.5 else wide):
        nodes.append(name(rng, nodes))
    names = []
    while len(names) < wide:
        names.append(name(rng, names))
    stay = None if not long else rng.choice([0.24, 0.4, 0.56, 0.7, 0.84])  # mostly one kind of call
    ops = []
    nh = 0  # handles

    def val(lo, hi, integer=None):
        r = rng.random()
        if r < 0.72:
            return ["ok", gen_value(rng, h, s, lo, hi, integer)]
        if r < 0.9:  # one single entry out of range
            v = gen_value(rng, h, s, lo, hi, integer)
            x = rng.choice([lo - 1, lo - 0.01, hi + 1 if hi == 1 else lo - 5])
            if v["k"] == "scalar":
                v["d"] = x
            elif v["k"] == "row":
                v["d"][rng.randrange(h)] = x
            elif v["k"] == "col":
                v["d"][rng.randrange(s)][0] = x
            else:
                v["d"][rng.randrange(s)][rng.randrange(h)] = x
            return ["ok", v]
        return ["shape", h + s + 3]

    ops.append(["net", rng.choice(nets)])
    ops.append(["node", 0, nodes[0]])
    for _ in range(rng.randint(6, 26) if not long else rng.randint(30, 90)):
        r = rng.random()
        if stay and rng.random() < 0.6:
            r = stay + 0.01
        nets_h = [k for k, o in enumerate(ops) if o[0] == "net"]
        node_h = [k for k, o in enumerate(ops) if o[0] == "node"]
        if r < 0.08:
            ops.append(["net", rng.choice(nets)])
        elif r < 0.24:
            ops.append(["node", rng.choice(nets_h + node_h), rng.choice(nodes)])
        elif r < 0.40:
            ops.append(["cons", rng.choice(node_h), rng.choice(names), val(0, 9), ["ok", gen_value(rng, h, s, -9, 9)] if rng.random() < 0.93 else ["shape", h + s + 3]])
        elif r < 0.56:
            ops.append(["prod", rng.choice(node_h), rng.choice(names), val(0, 9), ["ok", gen_value(rng, h, s, -9, 9)] if rng.random() < 0.93 else ["shape", h + s + 3]])
        elif r < 0.70:
            ops.append(["stor", rng.choice(node_h), rng.choice(names), val(0, 9) if rng.random() < 0.4 else ["ok", gen_value(rng, h, s, 0, 9)],
                        val(0, 9) if rng.random() < 0.4 else ["ok", gen_value(rng, h, s, 0, 9)], val(0, 9) if rng.random() < 0.4 else ["ok", gen_value(rng, h, s, 0, 9)],
                        ["ok", gen_value(rng, h, s, -9, 9)] if rng.random() < 0.93 else ["shape", h + s + 3], rng.choice([0, 0, 3, 2.5, -1, -0.5]),
                        val(0, 1, False) if rng.random() < 0.6 else ["ok", const(rng.choice([0, 1, 0.5]))]])
        elif r < 0.84:
            ops.append(["link", rng.choice(["study", "handle"]), rng.choice(nets_h + node_h), rng.choice(nodes), rng.choice(nodes + ["zz"] if rng.random() < 0.5 else nodes), val(0, 9), ["ok", gen_value(rng, h, s, -9, 9)] if rng.random() < 0.93 else ["shape", h + s + 3]])
        elif r < 0.92:
            ops.append(["src", rng.choice(node_h), rng.choice(names), ["ok", gen_value(rng, h, s, 0.5, 3, False)] if rng.random() < 0.85 else ["shape", h + s + 3]])
        else:
            ops.append(["dest", rng.choice(nets_h + node_h), rng.choice(names), rng.choice(nets + ["nonet"] if rng.random() < 0.3 else nets), rng.choice(nodes + ["zz"] if rng.random() < 0.3 else nodes),
                        ["ok", gen_value(rng, h, s, 0, 9)] if rng.random() < 0.8 else ["shape", h + s + 3], ["ok", gen_value(rng, h, s, -9, 9)] if rng.random() < 0.8 else ["shape", h + s + 3]])
    return {"h": h, "s": s, "ops": ops}, True


def c08_check(c):
    h, s = c["h"], c["s"]
    st = Study(horizon=h, nb_scn=s)
    model = {}  # net -> node -> dict of lists   (insertion order)
    conv = {}
    hd = {}
    where = {}

    def data(v):
        return raw(v[1]) if v[0] == "ok" else [1.0] * v[1]

    def img(v):
        return [[float(at(v[1], i, j)) for j in range(h)] for i in range(s)]

    def okv(v, lo=None, hi=None):
        if v[0] != "ok":
            return False
        e = [x for r in img(v) for x in r]
        return (lo is None or min(e) >= lo) and (hi is None or max(e) <= hi)

    def image():
        return {"networks": [(n, [(m, list(e["cons"]), list(e["prod"]), list(e["stor"]), list(e["link"])) for m, e in nd.items()]) for n, nd in model.items()],
                "converters": [(k, k, list(v["src"]), v["net"], v["node"]) + ((v["cost"], v["max"]) if v["node"] else (None, None)) for k, v in conv.items()]}

    def actual():
        x = study_image(st)
        return {"networks": x["networks"], "converters": [t if t[4] else t[:5] + (None, None) for t in x["converters"]]}

    for k, o in enumerate(c["ops"]):
        kind = o[0]
        accept = True
        call = None
        if kind == "net":
            prev = [hd[j] for j in hd]
            hd[k] = (prev[-1].network(o[1]) if prev and (k % 2) else st.network(o[1]))
            where[k] = (o[1], None)
            model.setdefault(o[1], {})
        elif kind == "node":
            n = where[o[1]][0]
            hd[k] = hd[o[1]].node(o[2])
            where[k] = (n, o[2])
            model[n].setdefault(o[2], {"cons": [], "prod": [], "stor": [], "link": []})
        elif kind in ("cons", "prod"):
            n, m = where[o[1]]
            e = model[n][m][kind]
            accept = o[2] not in [x[0] for x in e] and okv(o[3], 0) and okv(o[4])
            f = hd[o[1]].consumption if kind == "cons" else hd[o[1]].production
            call = lambda: f(name=o[2], quantity=data(o[3]), cost=data(o[4]))
            if accept:
                e.append((o[2], img(o[3]), img(o[4])))
        elif kind == "stor":
            n, m = where[o[1]]
            e = model[n][m]["stor"]
            _, _, nm, cap, fi, fo, cost, init, eff = o
            accept = nm not in [x[0] for x in e] and okv(cap, 0) and okv(fi, 0) and okv(fo, 0) and okv(cost) and init >= 0 and okv(eff, 0, 1)
            call = lambda: hd[o[1]].storage(name=nm, capacity=data(cap), flow_in=data(fi), flow_out=data(fo), cost=data(cost), init_capacity=init, eff=data(eff))
            if accept:
                e.append((nm, img(cap), img(fi), img(fo), img(cost), float(init), img(eff)))
        elif kind == "link":
            n, m = where[o[2]]
            src, dest = o[3], o[4]
            accept = src in model[n] and dest in model[n] and dest not in [x[0] for x in model[n][src]["link"]] and okv(o[5], 0) and okv(o[6])
            if o[1] == "study":
                call = lambda: st.add_link(network=n, src=src, dest=dest, quantity=data(o[5]), cost=data(o[6]))
            else:
                call = lambda: hd[o[2]].link(src=src, dest=dest, quantity=data(o[5]), cost=data(o[6]))
            if accept:
                model[n][src]["link"].append((dest, img(o[5]), img(o[6])))
        elif kind == "src":
            n, m = where[o[1]]
            cv = conv.get(o[2], {"src": [], "net": "", "node": "", "cost": None, "max": None})
            accept = (n, m) not in [x for x, _ in cv["src"]] and okv(o[3])
            call = lambda: hd[o[1]].to_converter(name=o[2], ratio=data(o[3]))
            if accept:
                conv.setdefault(o[2], cv)["src"].append(((n, m), img(o[3])))
        elif kind == "dest":
            cv = conv.get(o[2], {"src": [], "net": "", "node": "", "cost": None, "max": None})
            accept = not cv["node"] and o[3] in model and o[4] in model[o[3]] and okv(o[5]) and okv(o[6])
            call = lambda: hd[o[1]].converter(name=o[2], to_network=o[3], to_node=o[4], max=data(o[5]), cost=data(o[6]))
            if accept:
                conv.setdefault(o[2], cv).update(net=o[3], node=o[4], max=img(o[5]), cost=img(o[6]))
        if call:
            try:
                call()
                got = True
            except Exception as ex:
                got, why = False, ex
            if got and not accept:
                raise Violation("call %d %s was accepted but must be refused" % (k, o))
            if accept and not got:
                raise Violation("call %d %s was refused (%s: %s)" % (k, o, type(why).__name__, why))
        d = diff(actual(), image(), "study")
        need(d is None, "after call %d %s (%s): %s", k, o, "accepted" if accept else "refused", d)


# ------------------------------------------------------------------------------------------ C09
def c09(rng, i):
    d = gen_desc(rng)
    els = [[n, m, k] for n, nodes in d["nets"] for m, e in nodes for k in e if e[k]]
    return {"desc": d, "seed": rng.randint(0, 10 ** 9), "grow": rng.choice(els) if els and rng.random() < 0.3 else None, "solve": i % 5 == 2, "version": rng.choice([None, "0.1", "9.9.9", "10.20.30-beta.11+sha.5114f85", "v1 é"]), "np": rng.random() < 0.3}, True


def c09_check(c):
    from hadar.optimizer.domain.output import Benchmark, Result

    d = c["desc"]
    rng = random.Random(c["seed"])
    st = Study(horizon=np.int64(d["h"]) if c["np"] else d["h"], nb_scn=d["s"], **({"version": c["version"]} if c["version"] else {}))
    g = c.get("grow")
    if g:  # written once, completed, then written again
        n, m, k = g
        small = json.loads(json.dumps(d))
        x = dict(dict(small["nets"])[n])[m][k].pop()
        build(small, st)
        s0 = Study.from_json(json.loads(json.dumps(st.to_json())))
        for y in (st, s0):
            if k == "link":
                y.add_link(network=n, src=m, dest=x["dest"], cost=raw(x["cost"]), quantity=raw(x["qty"]))
            else:
                put(y.network(n).node(m), k, x)
        need(diff(study_image(s0), study_image(st)) is None, "a study read from JSON then completed: %s", diff(study_image(s0), study_image(st)))
    else:
        build(d, st)
    img = study_image(st)
    dd = diff(img, desc_image(d, st.version), "built study")
    need(dd is None, "%s", dd)
    if c["version"]:
        need(st.version == c["version"], "version is %r", st.version)
    doc = st.to_json()
    text = json.dumps(doc)
    need(diff(study_image(st), img) is None, "to_json changed the study: %s", diff(study_image(st), img))
    for mk in (lambda: st.to_json(), lambda: json.loads(text), lambda: doc):
        x = mk()
        before = json.dumps(x)
        s2 = Study.from_json(x)
        need(isinstance(s2, Study), "from_json gives %s", type(s2).__name__)
        need(json.dumps(x) == before, "Study.from_json changed the document")
        dd = diff(study_image(s2), img, "study")
        need(dd is None, "after a JSON round trip, %s", dd)
        need(json.dumps(s2.to_json()) == text, "second to_json differs from the first")
        # still usable: adding an element respects the same horizon
        s2.network("extra").node("x").production(name="p", cost=[1.0] * d["h"], quantity=1)
        s3 = Study.from_json(x)
        need(diff(study_image(s3), img) is None, "reading a document twice: %s", diff(study_image(s3), img))
    r = None
    if c["solve"]:
        try:
            r = solved({"desc": d})
        except Exception:
            r = None
    if r is None:
        r = fake_result(d, rng)
        if rng.random() < 0.5:
            r.benchmark = Benchmark(modeler=[rng.random() for _ in range(d["s"])], solver=[rng.random() for _ in range(d["s"])], mapper=rng.random(), total=rng.random())
    img = result_image(r)
    doc = r.to_json()
    text = json.dumps(doc)
    need(diff(result_image(r), img) is None, "to_json changed the result: %s", diff(result_image(r), img))
    for mk in (lambda: r.to_json(), lambda: json.loads(text), lambda: doc):
        x = mk()
        before = json.dumps(x)
        r2 = Result.from_json(x)
        need(json.dumps(x) == before, "Result.from_json changed the document")
        dd = diff(result_image(r2), img, "result")
        need(dd is None, "after a JSON round trip, %s", dd)
        need(json.dumps(r2.to_json()) == text, "second to_json differs from the first")
        for n, net in r2.networks.items():
            for nd in net.nodes.values():
                for e in nd.consumptions:
                    need(isinstance(e.quantity, np.ndarray), "array read from JSON is %s", type(e.quantity).__name__)
        # what is read from a document has its own arrays
        for net in r2.networks.values():
            for nd in net.nodes.values():
                for e in list(nd.consumptions) + list(nd.productions) + list(nd.links):
                    e.quantity[-1, -1] += 1
        need(json.dumps(x) == before and diff(result_image(r), img) is None, "writing in a result read from JSON changed its document or its source")
        x2 = r2.to_json()
        dd = diff(result_image(Result.from_json(x2)), result_image(r2), "changed result")
        need(dd is None, "a result written, changed and written again, %s", dd)


GEN = {"C07": c07, "C08": c08, "C09": c09}
CHK = {"C07": c07_check, "C08": c08_check, "C09": c09_check}


def run(prop, rng, i):
    case, nt = GEN[prop](rng, i)
    case = json.loads(json.dumps(case))
    try:
        CHK[prop](case)
    except Exception as ex:
        raise Failure.wrap(ex, case)
    return case, nt


def replay(prop, case):
    CHK[prop](case)
