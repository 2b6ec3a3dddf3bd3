"""C17: what plots receive and what HTML figures draw, against the reference tables."""
from analyzer import reference
from common import *
from hadar import HTMLPlotting, ResultAnalyzer
from hadar.viewer.abc import ABCElementPlotting, ABCPlotting


def snap(x):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [(n, np.array(v, dtype=float)) for n, v in x]
    if isinstance(x, dict):
        return dict(x)
    return x


class Rec(ABCElementPlotting):
    def __init__(self):
        self.calls = []

    def _rec(self, what, **kw):
        self.calls.append((what, {k: snap(v) for k, v in kw.items()}))
        return "fig"

    def timeline(self, df, title):
        return self._rec("timeline", df=df)

    def monotone(self, y, title):
        return self._rec("monotone", y=y)

    def gaussian(self, rac, qt, title):
        return self._rec("gaussian", rac=rac, qt=qt)

    def candles(self, open, close, title):
        return self._rec("candles", open=open, close=close)

    def stack(self, areas, lines, title):
        return self._rec("stack", areas=areas, lines=lines)

    def matrix(self, data, title):
        return self._rec("matrix", data=data)

    def map_exchange(self, nodes, lines, limit, title, zoom):
        return self._rec("map", nodes=nodes, lines=lines, limit=limit)


class Tee(Rec):
    """keeps what a plot received, then draws it"""

    def __init__(self, real):
        Rec.__init__(self)
        self.real = real

    def timeline(self, df, title):
        self._rec("timeline", df=df)
        return self.real.timeline(df, title)

    def monotone(self, y, title):
        self._rec("monotone", y=y)
        return self.real.monotone(y, title)

    def gaussian(self, rac, qt, title):
        self._rec("gaussian", rac=rac, qt=qt)
        return self.real.gaussian(rac=rac, qt=qt, title=title)

    def candles(self, open, close, title):
        self._rec("candles", open=open, close=close)
        return self.real.candles(open, close, title)

    def stack(self, areas, lines, title):
        self._rec("stack", areas=areas, lines=lines)
        return self.real.stack(areas, lines, title)

    def matrix(self, data, title):
        self._rec("matrix", data=data)
        return self.real.matrix(data, title)

    def map_exchange(self, nodes, lines, limit, title, zoom):
        self._rec("map", nodes=nodes, lines=lines, limit=limit)
        return self.real.map_exchange(nodes, lines, limit, title, zoom)


class Keep:
    """selectors kept and used several times"""

    def __init__(self, obj):
        self.obj, self.memo = obj, {}

    def __getattr__(self, k):
        f = getattr(self.obj, k)
        if k not in ("network", "node"):
            return f

        def g(x):
            if x not in self.memo:
                self.memo[x] = Keep(f(x))
            return self.memo[x]

        return g


class RecPlotting(ABCPlotting):
    def __init__(self, agg, **kw):
        ABCPlotting.__init__(self, agg, **kw)
        self.plotting = Rec()


def seq(got, exp, what):
    got = [float(x) for x in np.asarray(got, dtype=float).reshape(-1)]
    need(len(got) == len(exp) and all(abs(a - b) <= 1e-6 * max(1, abs(b)) for a, b in zip(got, exp)), "%s is %s, expected %s", what, got, [float(x) for x in exp])


def consistent(d, r):
    """levels of the arbitrary result follow the dynamics, so that both readings of a level agree"""
    for n, nodes in d["nets"]:
        for m, e in nodes:
            for i, x in enumerate(e["stor"]):
                z = r.networks[n].nodes[m].storages[i]
                for s in range(d["s"]):
                    lvl = x["init"]
                    for t in range(d["h"]):
                        lvl = lvl + z.flow_in[s, t] * at(x["eff"], s, t) - z.flow_out[s, t]
                        z.capacity[s, t] = lvl


def setup(c):
    d = c["desc"]
    st = build(d)
    r = fake_result(d, random.Random(c["seed"]))
    consistent(d, r)
    rs = random.Random(c["seed"] + 1)
    sign = c.get("sign")
    if sign:  # rac only positive, only negative, or null
        for n, nodes in d["nets"]:
            for m, e in nodes:
                o = r.networks[n].nodes[m]
                for i, x in enumerate(e["prod"]):
                    o.productions[i].quantity = np.array([[at(x["qty"], s, t) - (rs.uniform(1, 5) if sign == "pos" else 0) for t in range(d["h"])] for s in range(d["s"])], dtype=float)
                for i, x in enumerate(e["cons"]):
                    o.consumptions[i].quantity = np.array([[at(x["qty"], s, t) - (rs.uniform(1, 5) if sign == "neg" else 0) for t in range(d["h"])] for s in range(d["s"])], dtype=float)
    if c.get("calm"):  # some exchanges null, some equal in both directions
        for n, nodes in d["nets"]:
            for m, e in nodes:
                for i, x in enumerate(e["link"]):
                    if rs.random() < 0.5:
                        r.networks[n].nodes[m].links[i].quantity[:] = rs.choice([0, 5])
    return d, st, r, ResultAnalyzer(st, r)


def rac_ref(d, ref, n):
    a = [[0.0] * d["h"] for _ in range(d["s"])]
    for (net, _, _, s, t), v in ref["prod"].items():
        if net == n:
            a[s][t] += v["avail"] - v["used"]
    for (net, _, _, s, t), v in ref["cons"].items():
        if net == n:
            a[s][t] -= v["asked"] - v["given"]
    return a


def check(c):
    d, st, r, agg = setup(c)
    ref = reference(d, r)
    H, S = d["h"], d["s"]
    rng = random.Random(c["seed"] + 2)
    keep = {k: getattr(agg, k).copy() for k in ("consumption", "production", "storage", "link", "src_converter", "dest_converter")}
    kw = {}
    if c["dates"]:
        kw = {"time_start": "2020-01-01", "time_end": "2020-06-01"}
    coord = {m: [rng.uniform(-5, 10), rng.uniform(40, 60)] for _, nodes in d["nets"] for m, _ in nodes}
    rp = RecPlotting(agg, **kw)
    hp = HTMLPlotting(agg=agg, unit_symbol=rng.choice(["", "MW"]), node_coord=coord, **kw)
    time = list(pd.date_range("2020-01-01", "2020-06-01", periods=H)) if c["dates"] else list(range(H))
    need(len(rp.time_index) == H and all(a == b for a, b in zip(list(rp.time_index), time)), "time index %s", list(rp.time_index))

    tee = None
    if not c.get("apart"):
        try:
            tee = Tee(hp.plotting)
            hp.plotting = tee
        except AttributeError:
            tee = None
    if c.get("keep"):
        rp, hp = Keep(rp), Keep(hp)

    def both(path):
        if tee is not None:
            tee.calls.clear()
            out = path(hp)
            need(len(tee.calls) == 1, "plot made %d calls", len(tee.calls))
            return tee.calls[0], out
        rp.plotting.calls.clear()
        out = path(rp)
        need(out == "fig" and len(rp.plotting.calls) == 1, "plot made %d calls", len(rp.plotting.calls))
        call = rp.plotting.calls[0]
        return call, path(hp)

    def element(sel, col, get, n, what):
        """get(s, t) -> value"""
        for op in rng.sample(["timeline", "mono_t", "mono_s", "gauss_t", "gauss_s"], 2) if max(S, H) < 10 else ["timeline", rng.choice(["mono_t", "mono_s", "gauss_t", "gauss_s"])]:
            s0, t0 = rng.randrange(S), rng.randrange(H)
            rac = rac_ref(d, ref, n)
            w = "%s %s (scn=%d t=%d)" % (what, op, s0, t0)
            if op == "timeline":
                call, fig = both(lambda p: sel(p).timeline())
                need(call[0] == "timeline", w)
                df = call[1]["df"]
                need(len(df) == S * H, "%s: %d values", w, len(df))
                for s in range(S):
                    for t in range(H):
                        need(close(float(df.loc[(s, t)]), get(s, t)), "%s at (%d, %d): %r, expected %r", w, s, t, float(df.loc[(s, t)]), get(s, t))
                need(len(fig.data) == S, "%s: %d curves", w, len(fig.data))
                for s, tr in enumerate(fig.data):
                    seq(tr.y, [get(s, t) for t in range(H)], w + " curve")
                    need(tr.name == "scn %0d" % s, "%s: curve name %r", w, tr.name)
                    need(len(tr.x) == H, "%s: %d abscissas", w, len(tr.x))
            elif op.startswith("mono"):
                kwv = {"t": t0} if op == "mono_t" else {"scn": s0}
                vals = [get(s, t0) for s in range(S)] if op == "mono_t" else [get(s0, t) for t in range(H)]
                call, fig = both(lambda p: sel(p).monotone(**kwv))
                seq(sorted(np.asarray(call[1]["y"], dtype=float)), sorted(vals), w)
                seq(fig.data[0].y, sorted(vals, reverse=True), w + " figure")
                seq(fig.data[0].x, [100.0 * i / max(1, len(vals) - 1) if len(vals) > 1 else 0.0 for i in range(len(vals))], w + " abscissa")
            else:
                kwv = {"t": t0} if op == "gauss_t" else {"scn": s0}
                vals = [get(s, t0) for s in range(S)] if op == "gauss_t" else [get(s0, t) for t in range(H)]
                rc = [rac[s][t0] for s in range(S)] if op == "gauss_t" else rac[s0]
                call, fig = both(lambda p: sel(p).gaussian(**kwv))
                seq(call[1]["qt"], vals, w)
                seq(call[1]["rac"], rc, w + " rac")
                g = [v for v, x in zip(vals, rc) if x >= 1e-7]
                f = [v for v, x in zip(vals, rc) if x < -1e-7]
                lim = [v for v, x in zip(vals, rc) if abs(x) < 1e-7]
                by = {tr.name: [float(v) for v in tr.x] for tr in fig.data[1:]}
                cover = by.get("passed", []) + by.get("failed", [])
                need(len(cover) == len(vals), "%s: %d points drawn", w, len(cover))
                for v in g:
                    need(any(close(v, z) for z in by["passed"]), "%s: value %r with remaining capacity is not drawn as passed", w, v)
                for v in f:
                    need(any(close(v, z) for z in by["failed"]), "%s: value %r without remaining capacity is not drawn as failed", w, v)
                need(len(by["passed"]) <= len(g) + len(lim) and len(by["failed"]) <= len(f) + len(lim), "%s: passed %s failed %s", w, by["passed"], by["failed"])
                m, o = np.mean(vals), np.std(vals)
                if o > 1e-9:
                    for tr in fig.data[1:]:
                        seq(tr.y, [float(np.exp(-0.5 * ((v - m) / o) ** 2) / o / 1.772454) for v in tr.x], w + " height") if len(tr.x) else None

    for n, nodes in d["nets"]:
        for m, e in rng.sample(nodes, min(2, len(nodes))):
            if e["cons"]:
                x = rng.choice(e["cons"])
                k = rng.choice(["asked", "given", None])
                element(lambda p: p.network(n).node(m).consumption(x["name"], **({"kind": k} if k else {})), k, lambda s, t: float(ref["cons"][n, m, x["name"], s, t][k or "given"]), n, "consumption %s/%s/%s %s" % (n, m, x["name"], k))
            if e["prod"]:
                x = rng.choice(e["prod"])
                k = rng.choice(["avail", "used", None])
                element(lambda p: p.network(n).node(m).production(x["name"], **({"kind": k} if k else {})), k, lambda s, t: float(ref["prod"][n, m, x["name"], s, t][k or "used"]), n, "production %s/%s/%s %s" % (n, m, x["name"], k))
            if e["link"]:
                x = rng.choice(e["link"])
                k = rng.choice(["avail", "used", None])
                element(lambda p: p.network(n).node(m).link(x["dest"], **({"kind": k} if k else {})), k, lambda s, t: float(ref["link"][n, m, x["dest"], s, t][k or "used"]), n, "link %s/%s->%s %s" % (n, m, x["dest"], k))
            for cv in d["convs"]:
                if tuple(cv["dest"]) == (n, m):
                    element(lambda p: p.network(n).node(m).from_converter(cv["name"]), "flow", lambda s, t: float(ref["dst"][n, m, cv["name"], s, t]["flow"]), n, "converter to %s/%s %s" % (n, m, cv["name"]))
                if any((a, b) == (n, m) for a, b, _ in cv["src"]):
                    element(lambda p: p.network(n).node(m).to_converter(cv["name"]), "flow", lambda s, t: float(ref["src"][n, m, cv["name"], s, t]["flow"]), n, "converter from %s/%s %s" % (n, m, cv["name"]))
            if e["stor"]:
                i = rng.randrange(len(e["stor"]))
                x, z = e["stor"][i], r.networks[n].nodes[m].storages[i]
                s0, t0 = rng.randrange(S), rng.randrange(H)
                w = "storage %s/%s/%s" % (n, m, x["name"])
                for op in rng.sample(["candles", "t", "s"], 2):
                    if op == "candles":
                        op_ = [x["init"]] + [float(z.capacity[s0, t]) for t in range(H)]
                        call, fig = both(lambda p: p.network(n).node(m).storage(x["name"]).candles(scn=s0))
                        seq(call[1]["open"], op_[:-1], w + " candles open")
                        seq(call[1]["close"], op_[1:], w + " candles close")
                        seq(fig.data[0].open, op_[:-1], w + " figure open")
                        seq(fig.data[0].close, op_[1:], w + " figure close")
                    else:
                        vals = [float(z.flow_in[s, t0] - z.flow_out[s, t0]) for s in range(S)] if op == "t" else [float(z.flow_in[s0, t] - z.flow_out[s0, t]) for t in range(H)]
                        call, fig = both(lambda p: p.network(n).node(m).storage(x["name"]).monotone(**({"t": t0} if op == "t" else {"scn": s0})))
                        seq(sorted(np.asarray(call[1]["y"], dtype=float)), sorted(vals), w + " monotone")
                        seq(fig.data[0].y, sorted(vals, reverse=True), w + " monotone figure")
            stack(c, d, ref, n, m, e, rng, both)
        # network plots
        call, fig = both(lambda p: p.network(n).rac_matrix())
        rac = rac_ref(d, ref, n)
        got = np.asarray(call[1]["data"], dtype=float)
        need(got.shape == (S, H), "rac matrix shape %s", got.shape)
        for s in range(S):
            seq(got[s], rac[s], "rac matrix of %s, scenario %d" % (n, s))
            seq(np.asarray(fig.data[0].text, dtype=float)[s], rac[s], "rac figure text of %s, scenario %d" % (n, s))
        pos = max([x for row in rac for x in row if x > 1e-7] or [1])
        neg = -min([x for row in rac for x in row if x < -1e-7] or [-1])
        zf = np.asarray(fig.data[0].z, dtype=float)
        for s in range(S):
            for t in range(H):
                x = rac[s][t]
                if abs(x) > 1e-7:
                    need(close(zf[s][t], x / pos if x > 0 else x / neg), "rac figure of %s at (%d, %d) is %r for %r", n, s, t, float(zf[s][t]), x)
        themap(c, d, ref, n, nodes, rng, both, coord)
    for k, v in keep.items():
        need(v.equals(getattr(agg, k)), "plotting changed the table %s", k)


def bal(ref, n, m, s, t):
    b = 0.0
    for (net, node, dest, s2, t2), v in ref["link"].items():
        if net == n and (s2, t2) == (s, t):
            b += (v["used"] if node == m else 0) - (v["used"] if dest == m else 0)
    return b


def stack(c, d, ref, n, m, e, rng, both):
    s0 = rng.randrange(d["s"])
    H = d["h"]
    kw = {}
    if rng.random() < 0.8:
        kw["scn"] = s0
    else:
        s0 = 0
    pk, ck = rng.choice(["used", "avail", None]), rng.choice(["asked", "given", None])
    if pk:
        kw["prod_kind"] = pk
    if ck:
        kw["cons_kind"] = ck
    pk, ck = pk or "used", ck or "asked"
    call, fig = both(lambda p: p.network(n).node(m).stack(**kw))
    w = "stack of %s/%s scn=%d" % (n, m, s0)
    S_ = lambda kind, nm, col: (nm, [float(ref[kind][n, m, nm, s0, t][col]) for t in range(H)])
    areas = [S_("prod", x["name"], pk) for x in e["prod"]] + [S_("stor", x["name"], "flow_out") for x in e["stor"]]
    lines = [S_("cons", x["name"], ck) for x in e["cons"]] + [S_("stor", x["name"], "flow_in") for x in e["stor"]]
    for cv in d["convs"]:
        if tuple(cv["dest"]) == (n, m):
            areas.append(S_("dst", cv["name"], "flow"))
        if any((a, b) == (n, m) for a, b, _ in cv["src"]):
            lines.append(S_("src", cv["name"], "flow"))
    b = [bal(ref, n, m, s0, t) for t in range(H)]
    im, ex = [max(0.0, -x) for x in b], [max(0.0, x) for x in b]
    tiny = lambda v: all(abs(x) < 1e-7 for x in v)
    for got, exp, extra, k in ((call[1]["areas"], areas, ("import", im), "areas"), (call[1]["lines"], lines, ("export", ex), "lines")):
        if not tiny(extra[1]):
            exp = exp + [extra]
        got = [(a, [float(z) for z in v]) for a, v in got]
        got = [g for i, g in enumerate(got) if not (g[0] == extra[0] and tiny(g[1]) and tiny(extra[1]) and i == len(got) - 1)]
        rest = list(got)
        for a, v in exp:
            hit = next((g for g in rest if g[0] == a and len(g[1]) == len(v) and all(close(p, q) for p, q in zip(g[1], v))), None)
            need(hit is not None, "%s: no %s %r with values %s; got %s", w, k, a, v, got)
            rest.remove(hit)
        need(not rest, "%s: unexpected %s %s", w, k, rest)
    # figure: same values, stacked
    A, L = call[1]["areas"], call[1]["lines"]
    need(len(fig.data) == len(A) + len(L), "%s: %d traces for %d areas and %d lines", w, len(fig.data), len(A), len(L))
    acc = np.zeros(H)
    for i, (a, v) in enumerate(A):
        acc = acc + np.asarray(v, dtype=float)
        need(fig.data[i].name == str(a), "%s: area %d is %r, expected %r", w, i, fig.data[i].name, a)
        seq(fig.data[i].y, acc.tolist(), w + " area %s" % a)
    acc = np.zeros(H)
    st = []
    for a, v in L:
        acc = acc + np.asarray(v, dtype=float)
        st.append((a, acc.tolist()))
    tr = {(t.name, tuple(round(float(z), 4) for z in t.y)) for t in fig.data[len(A):]}
    for a, v in st:
        need(any(t.name == str(a) and len(t.y) == H and all(close(p, q) for p, q in zip(t.y, v)) for t in fig.data[len(A):]), "%s: no line %r stacked at %s", w, a, v)


def themap(c, d, ref, n, nodes, rng, both, coord):
    s0, t0 = rng.randrange(d["s"]), rng.randrange(d["h"])
    kw = {"t": t0, "zoom": rng.choice([1, 2.5])}
    if rng.random() < 0.8:
        kw["scn"] = s0
    else:
        s0 = 0
    lim = rng.choice([None, None, 100])
    if lim:
        kw["limit"] = lim
    call, fig = both(lambda p: p.network(n).map(**kw))
    w = "map of %s scn=%d t=%d" % (n, s0, t0)
    exp = {m: bal(ref, n, m, s0, t0) for m, _ in nodes}
    got = call[1]["nodes"]
    need(sorted(got) == sorted(exp), "%s: nodes %s", w, sorted(got))
    for m in exp:
        need(close(float(got[m]), exp[m]), "%s: net position of %s is %r, expected %r", w, m, float(got[m]), exp[m])
    L = call[1]["limit"]
    need(close(float(L), lim if lim else max(abs(x) for x in exp.values())), "%s: limit %r", w, float(L))
    flow = {}
    for m, e in nodes:
        for x in e["link"]:
            flow[m, x["dest"]] = float(ref["link"][n, m, x["dest"], s0, t0]["used"])
    lines = {tuple(k): float(v) for k, v in call[1]["lines"].items()}
    seen = set()
    for a, b in flow:
        net = flow[a, b] - flow.get((b, a), 0.0)
        seen |= {(a, b), (b, a)}
        if abs(net) <= 1e-7:
            need(all(abs(lines.get(k, 0.0)) <= 1e-6 for k in ((a, b), (b, a))), "%s: %s and %s exchange nothing, drawn %s", w, a, b, lines)
            need((a, b) in lines or (b, a) in lines, "%s: no line between %s and %s", w, a, b)
            continue
        src, dst = (a, b) if net > 0 else (b, a)
        need((src, dst) in lines and close(lines[src, dst], abs(net)), "%s: flow from %s to %s is %r, expected %r", w, src, dst, lines.get((src, dst)), abs(net))
        need((dst, src) not in lines, "%s: flow drawn in both directions between %s and %s", w, a, b)
    need(set(lines) <= seen, "%s: lines %s without link", w, sorted(set(lines) - seen))
    pts = fig.data[-1]
    need([tuple(x) for x in zip(pts.lon, pts.lat)] and len(pts.lon) == len(exp), "%s: %d points", w, len(pts.lon))
    for lon, lat, txt, col in zip(pts.lon, pts.lat, pts.text, pts.marker.color):
        m = [k for k in exp if abs(coord[k][0] - lon) < 1e-9 and abs(coord[k][1] - lat) < 1e-9]
        need(len(m) == 1 and close(float(txt), exp[m[0]]) and close(float(col), exp[m[0]]), "%s: point of %s shows %r", w, m, txt)
    need(len(fig.data) == 2 * len(lines) + 1, "%s: %d traces for %d lines", w, len(fig.data), len(lines))
    arrows = list(fig.data[:-1])
    for (a, b), v in lines.items():
        ok = False
        for i in range(0, len(arrows), 2):
            seg, arr = arrows[i], arrows[i + 1]
            if close(seg.lon[0], coord[a][0]) and close(seg.lat[0], coord[a][1]) and close(seg.lon[1], coord[b][0]) and close(seg.lat[1], coord[b][1]):
                txt = arr.text if isinstance(arr.text, str) else arr.text[0]
                ok = ok or close(float(txt), v)
        need(ok, "%s: no arrow from %s to %s with %r", w, a, b, v)


def gen(rng):
    d = gen_desc(rng, maxbig=12)
    many = rng.random() < 0.15  # ten scenarios or steps, or more
    for _ in range(400):
        if sum(len(nd) for _, nd in d["nets"]) * d["h"] * d["s"] <= (240 if many else 120) and (not many or (d["s"] > 9 and d["h"] > 1 or d["h"] > 9)):
            break
        d = gen_desc(rng, maxbig=14)
    return {"desc": d, "seed": rng.randint(0, 10 ** 9), "sign": rng.choice([None, None, None, "pos", "neg"]), "dates": rng.random() < 0.3, "calm": rng.random() < 0.4, "apart": rng.random() < 0.12, "keep": rng.random() < 0.5}


def run(prop, rng, i):
    c = json.loads(json.dumps(gen(rng)))
    try:
        check(c)
    except Exception as ex:
        raise Failure.wrap(ex, c)
    return c, True


def replay(prop, case):
    check(case)
