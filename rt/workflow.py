"""C14 linking and running of stages, C15 built-in stages, C16 shuffler."""
from common import *
from hadar.workflow.pipeline import Clip, Drop, Fault, FocusStage, FreePlug, Pipeline, Rename, RepeatScenario, RestrictedPlug, Stage, ToShuffler
from hadar.workflow.shuffler import Shuffler

COLS = ["a", "b", "c", "d", "quantity", "x", "y", "to_shuffler", "load", "load2", "quantity_x", "ab"]
COLS += [x for x in NEW_STRS if x not in COLS and x not in ("z", "o1", "o2", "o3", "absent")][:6]


# -------------------------------------------------------------------------------- timelines
def gen_timeline(rng, cols=None, rows=None, scns=None, holes=0.0):
    """plain form: {columns: [[scn, name]...] or [name...], rows, index, values[row][col]}"""
    fix = rows is not None
    rows = rng.choice([1, 2, 3, 3, 5, 8]) if rows is None else rows
    names = cols if cols is not None else rng.sample(COLS, rng.randint(1, 4))
    many = near(rng, 200 if len(names) < 4 else 40) if NEW_INTS and rng.random() < 0.3 else rng.randint(9, 30) if rng.random() < 0.03 else None
    tall = rng.random() < 0.5
    if many and tall and not fix:
        rows = many
    multi = rng.random() < 0.75 or (scns or 1) > 1
    if multi:
        n = scns or (many if many and not tall else rng.choice([1, 2, 3, 4]))
        labels = rng.choice([list(range(n)), list(range(n)), list(range(n)), [i + 1 for i in range(n)], [10 * i for i in range(n)], ["s%d" % i for i in range(n)], list(range(n))[::-1]])
        columns = [[s, k] for s in labels for k in names]
        r = rng.random()
        if r < 0.15:  # name-major order
            columns = [[s, k] for k in names for s in labels]
        elif r < 0.25:
            rng.shuffle(columns)
    else:
        columns = list(names)
    idx = rng.choice(["range", "range", "range", "dates", "shift", "str"])
    ints = rng.random() < 0.25
    lim = NEW_NUMS if rng.random() < 0.3 else []
    hole = 0.15 if not ints and rng.random() < holes else 0

    def val():
        if hole and rng.random() < hole:
            return float("nan")
        if lim and rng.random() < 0.4:
            x = rng.choice(lim) + rng.choice([0, 0, 1, -1, 0.5])
            return int(round(x)) if ints else x
        return rng.choice([0, rng.randint(-30, 60)]) if ints else round(rng.uniform(-30, 60), 2)

    return {"columns": columns, "index": idx, "values": [[val() for _ in columns] for _ in range(rows)]}


def index_of(tl):
    n = len(tl["values"])
    if tl["index"] == "dates":
        return pd.date_range("2020-01-01", periods=n, freq="h")
    if tl["index"] == "shift":
        return pd.Index([5 + 2 * i for i in range(n)])
    if tl["index"] == "str":
        return pd.Index(["t%d" % i for i in range(n)])
    return pd.RangeIndex(n)


def frame(tl):
    cols = tl["columns"]
    if cols and isinstance(cols[0], list):
        cols = pd.MultiIndex.from_tuples([tuple(c) for c in cols])
    return pd.DataFrame(tl["values"], columns=cols, index=index_of(tl))


def plain(tl):
    """list of ((scn, name), [values]) in column order"""
    cols = [tuple(c) if isinstance(c, list) else (0, c) for c in tl["columns"]]
    return [(c, [row[i] for row in tl["values"]]) for i, c in enumerate(cols)]


def got_plain(df):
    return [(tuple(c), [float(x) for x in df.iloc[:, i].tolist()]) for i, c in enumerate(df.columns)]


def same_cols(got, exp, what, order=True):
    if order:
        need([c for c, _ in got] == [c for c, _ in exp], "%s: columns %s, expected %s", what, [c for c, _ in got], [c for c, _ in exp])
    else:
        need(sorted(map(repr, [c for c, _ in got])) == sorted(map(repr, [c for c, _ in exp])), "%s: columns %s, expected %s", what, [c for c, _ in got], [c for c, _ in exp])
    e = dict(exp)
    for c, v in got:
        need(len(v) == len(e[c]) and all(same(a, b) for a, b in zip(v, e[c])), "%s: column %s is %s, expected %s", what, c, v, e[c])


def same(a, b):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def frozen(df):
    return (df.copy(deep=True), list(df.columns), list(df.index), type(df.columns).__name__)


def unchanged(df, f, what):
    need(list(df.columns) == f[1] and list(df.index) == f[2] and type(df.columns).__name__ == f[3] and df.equals(f[0]), "%s modified the data given", what)


# -------------------------------------------------------------------------------- C14
class Rest(Stage):
    """restricted stage: removes the columns it consumes, adds constant outputs"""

    def __init__(self, inputs, outputs, tag, trace):
        Stage.__init__(self, plug=RestrictedPlug(inputs=inputs, outputs=outputs))
        self.tag, self.trace = tag, trace

    def _process_timeline(self, timeline):
        return act(timeline, self.plug.inputs, self.plug.outputs, self.tag, self.trace)


class Free(Stage):
    def __init__(self, tag, trace):
        Stage.__init__(self, plug=FreePlug())
        self.tag, self.trace = tag, trace

    def _process_timeline(self, timeline):
        self.trace.append((self.tag, sorted(set(timeline.columns.get_level_values(1)), key=str), float(np.nansum(timeline.values))))
        timeline += 1  # a stage may work in place on what it receives
        return timeline


class Focus(FocusStage):
    def __init__(self, inputs, outputs, tag, trace):
        FocusStage.__init__(self, plug=RestrictedPlug(inputs=inputs, outputs=outputs))
        self.tag, self.trace = tag, trace

    def _process_scenarios(self, n_scn, scenario):
        self.trace.append((self.tag, n_scn))
        k = 1 + sum(map(ord, str(n_scn))) % 7
        base = scenario[self.plug.inputs].sum(axis=1, skipna=False) if self.plug.inputs else 0
        out = scenario.drop([c for c in self.plug.inputs if c not in self.plug.outputs], axis=1)
        for j, c in enumerate(self.plug.outputs):
            out[c] = base * k + j + self.tag
        return out


def act(timeline, inputs, outputs, tag, trace):
    trace.append((tag, sorted(set(timeline.columns.get_level_values(1)), key=str), float(np.nansum(timeline.values))))
    scns = list(timeline.columns.get_level_values(0).unique())
    new = {}
    for s in scns:
        base = sum((timeline[(s, c)] for c in inputs), pd.Series(0.0, index=timeline.index))
        for c in timeline[s].columns:
            if c not in inputs:
                new[(s, c)] = timeline[(s, c)]
        for j, c in enumerate(outputs):
            new[(s, c)] = base + tag + j
    out = pd.DataFrame(new, index=timeline.index)
    out.columns = pd.MultiIndex.from_tuples(list(new))
    return out


def ref_stage(sp, tag, data):
    """reference for one stage on {(scn, name): [values]}"""
    kind, ins, outs = sp
    if kind == "free":
        return {k: [x + 1 for x in v] for k, v in data.items()}
    scns = []
    for s, _ in data:
        if s not in scns:
            scns.append(s)
    n = len(next(iter(data.values())))
    new = {}
    for s in scns:
        base = [sum(data[s, c][r] for c in ins) for r in range(n)]
        k = 1 if kind == "rest" else 1 + sum(map(ord, str(s))) % 7
        for (s2, c), v in data.items():
            if s2 == s and c not in ins:
                new[s, c] = v
        for j, c in enumerate(outs):
            new[s, c] = [b * k + j + tag for b in base]
    return new


def gen_c14(rng):
    stages = []
    avail = rng.sample(COLS, rng.randint(2, 5))
    first = list(avail)
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 5, 8 if rng.random() < 0.2 else 3]) if not NEW_INTS or rng.random() < 0.8 else near(rng, 16) or 9):
        r = rng.random()
        if r < 0.25:
            stages.append(["free", [], []])
            continue
        kind = "rest" if r < 0.7 else "focus"
        if rng.random() < 0.85:
            ins = rng.sample(avail, min(len(avail), rng.choice([0, 1, 1, 2])))
        else:
            ins = rng.sample(COLS, rng.choice([1, 2]))
        # new names, so that a stage never creates a column that already exists
        pool = [c for c in COLS if c not in avail or c in ins]
        outs = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2])))
        stages.append([kind, ins, outs])
        nxt = outs + [c for c in avail if c not in ins]
        restricted_seen = len([s for s in stages if s[0] != "free"]) > 0
        if restricted_seen and len([s for s in stages if s[0] != "free"]) == 1:
            # what the pipeline knows about is only the outputs of its first restricted stage
            avail = outs if rng.random() < 0.8 else nxt
            if not avail:
                avail = list(COLS)
        else:
            avail = nxt or list(COLS)
    extra = rng.random() < 0.6
    # the same stage object used again (one that creates no column)
    tags = list(range(len(stages)))
    again = [i for i, s in enumerate(stages) if set(s[2]) <= set(s[1]) and (s[0] == "free" or s[1])]
    if again and rng.random() < 0.4:
        i = rng.choice(again)
        at_ = rng.randint(i + 1, len(stages))
        stages.insert(at_, list(stages[i]))
        tags.insert(at_, i)
        tags = [t if t <= i or n == at_ else n for n, t in enumerate(tags)]
    inputs = next((s[1] for s in stages if s[0] != "free"), [])
    cols = list(inputs)
    for c in COLS:
        if c not in cols and rng.random() < 0.2 and not any(c in s[2] for s in stages):
            cols.append(c)
    if rng.random() < 0.15 and cols:
        cols.pop(rng.randrange(len(cols)))
    cols.append("z")  # never consumed, the timeline never gets empty
    rng.shuffle(cols)
    return {"stages": stages, "tl": gen_timeline(rng, cols=cols, holes=0.15), "tl2": gen_timeline(rng, cols=cols, scns=2), "tags": tags, "lack": rng.choice(inputs) if inputs else None, "cut": rng.randint(1, max(1, len(stages) - 1)), "share": rng.random() < 0.5}


def plug_ref(stages):
    """-> (ok, inputs, outputs, restricted?)"""
    P = None
    for kind, ins, outs in stages:
        if kind == "free":
            continue
        if P is None:
            P = (list(ins), list(outs))
            continue
        if not all(i in P[1] for i in ins):
            return False, None, None
        P = (P[0], list(outs) + [o for o in P[1] if o not in ins])
    return True, (P or ([], []))[0], (P or ([], []))[1]


def without(tl, name):
    """the timeline without the columns of this name, in every scenario"""
    at = [i for i, k in enumerate(tl["columns"]) if (k[1] if isinstance(k, list) else k) != name]
    return dict(tl, columns=[tl["columns"][i] for i in at], values=[[r[i] for i in at] for r in tl["values"]])


def c14(c):
    trace = []
    specs = c["stages"]

    def make():
        sts = [{"rest": Rest, "focus": Focus}[k](list(i), list(o), tag, trace) if k != "free" else Free(tag, trace) for tag, (k, i, o) in enumerate(specs)]
        return [sts[t] for t in c["tags"]]

    sts = make()
    img = lambda: [(s.plug.inputs[:], s.plug.outputs[:], type(s.plug).__name__) for s in sts]
    img0 = img()
    ok, ins, outs = plug_ref(specs)
    pipes = []
    for form in ("list", "plus"):
        if form == "plus" and len(sts) < 2:
            continue
        err = None
        try:
            if form == "list":
                given = list(sts)
                p = Pipeline(stages=given)
                need(given == sts, "Pipeline changed the list of stages given")
            else:
                p = sts[0] + sts[1]
                for s in sts[2:]:
                    prev = p
                    before = (list(prev.stages), prev.plug.inputs[:], prev.plug.outputs[:])
                    p = prev + s
                    need((list(prev.stages), prev.plug.inputs[:], prev.plug.outputs[:]) == before, "linking changed the pipeline linked")
        except ValueError as ex:
            err = ex
        need(img() == img0, "linking (%s) changed a stage: %s was %s", form, img(), img0)
        if not ok:
            need(err is not None, "stages %s were linked (%s) although inputs are missing", specs, form)
            continue
        need(err is None, "stages %s were refused (%s): %s", specs, form, err)
        need(sorted(p.plug.inputs) == sorted(ins), "%s: pipeline asks %s, expected %s", form, p.plug.inputs, ins)
        need(sorted(set(p.plug.outputs)) == sorted(set(outs)), "%s: pipeline announces %s, expected %s", form, p.plug.outputs, outs)
        pipes.append(p)
    if not ok:
        # operands stay usable: the good prefix still links
        for k in range(len(specs), 0, -1):
            if plug_ref(specs[:k])[0]:
                Pipeline(stages=sts[:k])
                break
        return
    if c["share"]:  # the same stages used in an other pipeline, before and after
        q = Pipeline(stages=sts[:c["cut"]])
        need(sorted(q.plug.inputs) == sorted(plug_ref(specs[:c["cut"]])[1]), "prefix pipeline asks %s", q.plug.inputs)
    for p in pipes:
        for tl in (c["tl"], c["tl2"]) + ((without(c["tl"], c["lack"]),) if c["lack"] in ins else ()):
            df = frame(tl)
            keep = frozen(df)
            names = [n for (_, n), _ in plain(tl)]
            del trace[:]
            good = all(i in names for i in ins)
            try:
                out = p(df)
                err = None
            except ValueError as ex:
                err = ex
            unchanged(df, keep, "running the pipeline")
            if not good:
                need(err is not None, "pipeline with inputs %s accepted columns %s", ins, names)
                need(trace == [], "stages ran although the inputs were missing")
                continue
            need(err is None, "pipeline with inputs %s refused columns %s: %s", ins, names, err)
            tags = [t[0] for t in trace]
            n_scn = len(set(s for (s, _), _ in plain(tl)))
            exp = []
            for tag, (k, _, _) in zip(c["tags"], specs):
                exp += [tag] * (n_scn if k == "focus" else 1)
            need(tags == exp, "stages ran as %s, expected %s", tags, exp)
            ref = dict(plain(tl))
            for tag, sp in zip(c["tags"], specs):
                ref = ref_stage(sp, tag, ref)
            same_cols(got_plain(out), list(ref.items()), "pipeline %s" % (specs,), order=False)
            need(list(out.index) == list(df.index), "pipeline changed the time index to %s", list(out.index))
    need(img() == img0, "running changed a stage")


# -------------------------------------------------------------------------------- C15
def gen_c15(rng):
    kind = rng.choice(["clip", "rename", "drop", "repeat", "fault", "focus", "toshuffler"])
    c = {"kind": kind}
    names = rng.sample(COLS, rng.choice([1, 2, 2, 3, 4, 4, 6, 8]))
    if kind in ("fault",) and "quantity" not in names:
        names[rng.randrange(len(names))] = "quantity"
    c["tl"] = gen_timeline(rng, cols=names, holes=0 if kind == "fault" else 0.15)
    if kind == "clip":
        c["lower"] = rng.choice([None, 0, rng.randint(-20, 10), 12.5])
        c["upper"] = rng.choice([None, rng.randint(13, 50), 20.25, 60])
        if rng.random() < 0.2:
            c["lower"], c["upper"] = rng.choice([(None, 0), (-10, 0), (0, 0), (-8.5, -3), (None, -2)])
    elif kind in ("rename", "toshuffler"):
        k = rng.sample(names, rng.randint(1, len(names)))
        free = [x for x in COLS + ["n%d" % i for i in range(9)] if x not in names]
        new = rng.sample(free, len(k))
        r = rng.random()
        if r < 0.2 and len(k) >= 2:
            new = k[1:] + k[:1]  # swap
        elif r < 0.35 and len(k) >= 2:
            new = k[1:] + new[:1]  # chain
        c["map"] = dict(zip(k, new))
        if kind == "toshuffler":
            names = [n for n in names if n != "to_shuffler"] or ["load"]
            c["tl"] = gen_timeline(rng, cols=names)
            c["map"] = {rng.choice(names): "to_shuffler"}
        if rng.random() < 0.1:
            c["map"] = {"absent": "to_shuffler" if kind == "toshuffler" else "q"}
    elif kind == "drop":
        c["names"] = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < 0.3:
            c["names"] = c["names"][:1]
            c["single"] = True
        elif rng.random() < 0.1:
            c["names"].append("absent")
    elif kind == "repeat":
        c["n"] = rng.choice([1, 2, 2, 3, 4, 7]) if not NEW_INTS or rng.random() < 0.8 else near(rng, 40) or 5
    elif kind == "fault":
        lo = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.1:
            c["tl"] = gen_timeline(rng, cols=names, rows=rng.choice([40, 120, 300]))
        c.update(loss=rng.choice([1, 2.5, 10, rng.randint(1, 40)]), freq=rng.choice([0, 0, 1, 1, 0.5, 0.3]), dmin=lo, dmax=lo + rng.choice([1, 1, 1, 2, 4]),
                 seed=rng.choice([None, None, 0, 0, 1, 42, rng.randint(0, 10 ** 6)]))
    else:
        ins = rng.sample(names, rng.randint(1, len(names)))
        outs = rng.sample(ins + [x for x in ["o1", "o2", "o3"]], rng.randint(1, 3))
        c.update(ins=ins, outs=outs)
    if kind != "fault" and rng.random() < 0.4:
        have = [k[1] if isinstance(k, list) else k for k in c["tl"]["columns"]]
        have = [k for n, k in enumerate(have) if k not in have[:n]]
        rng.shuffle(have)
        c["tl0"] = gen_timeline(rng, cols=have)
    return c


def c15(c):
    tl, kind = c["tl"], c["kind"]
    df = frame(tl)
    keep = frozen(df)
    src = plain(tl)
    names = set(n for (_, n), _ in src)
    trace = []
    if kind == "clip":
        st = Clip(lower=c["lower"], upper=c["upper"])
        lo = -float("inf") if c["lower"] is None else c["lower"]
        hi = float("inf") if c["upper"] is None else c["upper"]
        exp = [(k, [x if x != x else min(max(x, lo), hi) for x in v]) for k, v in src]
    elif kind in ("rename", "toshuffler"):
        st = Rename(**c["map"]) if kind == "rename" else ToShuffler(next(iter(c["map"])))
        exp = [((s, c["map"].get(n, n)), v) for (s, n), v in src]
    elif kind == "drop":
        st = Drop(c["names"][0] if c.get("single") else list(c["names"]))
        exp = [(k, v) for k, v in src if k[1] not in c["names"]]
    elif kind == "repeat":
        st = RepeatScenario(c["n"])
        scns = []
        for (s, _), _ in src:
            if s not in scns:
                scns.append(s)
        exp = [((k * len(scns) + scns.index(s), n), v) for k in range(c["n"]) for (s, n), v in src]
    elif kind == "focus":
        st = Focus(c["ins"], c["outs"], 3, trace)
        exp = list(ref_stage(["focus", c["ins"], c["outs"]], 3, dict(src)).items())
    else:
        st = Fault(loss=c["loss"], occur_freq=c["freq"], downtime_min=c["dmin"], downtime_max=c["dmax"], seed=c["seed"])
        exp = None
    missing = (kind in ("rename", "toshuffler") and not set(c["map"]) <= names) or (kind == "drop" and not set(c["names"]) <= names)
    try:
        if c.get("tl0") and not missing and kind != "fault":  # a stage is used on many timelines
            df0 = frame(c["tl0"])
            keep0 = frozen(df0)
            out0 = st(df0)
            unchanged(df0, keep0, kind)
            img0 = frozen(out0)
            del trace[:]
        out = st(df)
        if c.get("tl0") and not missing and kind != "fault":
            unchanged(out0, img0, "a second use of " + kind)
    except ValueError:
        unchanged(df, keep, kind)
        if missing:
            return
        raise
    need(not missing, "%s accepted a timeline without its mandatory columns", kind)
    unchanged(df, keep, kind)
    need(len(out) == len(df) and list(out.index) == list(df.index), "%s: time index %s, expected %s", kind, list(out.index), list(df.index))
    got = got_plain(out)
    if exp is not None:
        # stages by scenario give the columns scenario by scenario
        same_cols(got, exp, kind, order=kind != "focus")
        if kind == "focus":
            order = []
            for (s, _), _ in src:
                if s not in order:
                    order.append(s)
            need(sorted(str(t[1]) for t in trace) == sorted(map(str, order)), "each scenario must be processed once: %s", trace)
        return
    fault(c, df, src, got)
    if c["seed"] is not None:
        np.random.seed(987654)
        again = got_plain(Fault(loss=c["loss"], occur_freq=c["freq"], downtime_min=c["dmin"], downtime_max=c["dmax"], seed=c["seed"])(df))
        for (k, v), (k2, v2) in zip(got, again):
            need(k == k2 and v == v2, "Fault with seed %s is not reproducible", c["seed"])


def fault(c, df, src, got):
    need(sorted(map(repr, [k for k, _ in got])) == sorted(map(repr, [k for k, _ in src])), "Fault: columns %s, expected %s", [k for k, _ in got], [k for k, _ in src])
    G = dict(got)
    n = len(df)
    for (s, name), v in src:
        w = G[s, name]
        if name != "quantity" or c["freq"] == 0:
            need(all(same(a, b) for a, b in zip(w, v)), "Fault changed column %s: %s, was %s", (s, name), w, v)
            continue
        lost = [(a - b) / c["loss"] for a, b in zip(v, w)]
        cnt = [round(x) for x in lost]
        need(all(abs(x - k) < 1e-6 and k >= 0 for x, k in zip(lost, cnt)), "Fault: lost quantities %s are not multiples of the loss %s", [a - b for a, b in zip(v, w)], c["loss"])
        if c["dmax"] - c["dmin"] == 1:
            d = c["dmin"]
            starts = []
            for t in range(n):
                act_ = sum(starts[max(0, t - d + 1):t])
                starts.append(cnt[t] - act_)
            need(all(x >= 0 for x in starts), "Fault: losses %s are not a sum of windows of %d steps", cnt, d)
            need(sum(starts) <= n, "Fault: %d faults in %d steps", sum(starts), n)
            if c["freq"] == 1:
                need(sum(starts) == n, "Fault: frequency 1 gives %d faults for %d steps", sum(starts), n)
        else:
            need(max(cnt) <= n, "Fault: %d faults at once for %d steps", max(cnt), n)
            if c["freq"] == 1:
                need(n * min(1, c["dmin"]) <= sum(cnt) <= n * (c["dmax"] - 1), "Fault: %d steps lost by %d faults of [%d, %d) steps", sum(cnt), n, c["dmin"], c["dmax"])


def c15_ranges(seed):
    """random windows: every start of the horizon and every downtime of [min, max) must be possible"""
    rng = random.Random(seed)
    n, dmin, k = 400, 1, rng.randint(2, 4)
    df = pd.DataFrame({"quantity": [0.0] * n})
    first = last = 0
    lens = set()
    tot = 0
    for i in range(40):
        out = -Fault(loss=1, occur_freq=0.02, downtime_min=dmin, downtime_max=dmin + k, seed=None)(df).values[:, 0]
        tot += 1
        run_ = 0
        for t in range(n):
            if out[t] == 1:
                run_ += 1
            else:
                if run_:
                    lens.add(run_)
                run_ = 0
    # windows may start at every step, the last one too: frequency 1 gives n starts, each at the last step once in n
    n, d = 30, rng.choice([1, 2, 5])
    df = pd.DataFrame({"quantity": [0.0] * n})
    starts = [0] * n
    for i in range(40):
        out = -Fault(loss=1, occur_freq=1, downtime_min=d, downtime_max=d + 1, seed=None)(df).values[:, 0]
        one = []
        for t in range(n):
            one.append(out[t] - sum(one[max(0, t - d + 1):t]))
        starts = [a + b for a, b in zip(starts, one)]
    need(all(x > 0 for x in starts), "windows never start at step %s of %d, over %d windows", [t for t in range(n) if starts[t] <= 0], n, 40 * n)
    # a downtime of max-1 steps alone must be seen, over some hundreds of faults
    need(set(range(dmin, dmin + k)) <= lens, "downtimes seen %s, asked [%d, %d)", sorted(lens), dmin, dmin + k)


# -------------------------------------------------------------------------------- C16
class Sampler:
    """deterministic sampler: what it picks is known"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, low, high=None, size=None, *args, **kw):
        if high is None:
            low, high = 0, low
        return (np.arange(size) * self.a + self.b) % (high - low) + low

    def pick(self, n, nb):
        return [(i * self.a + self.b) % n for i in range(nb)]


class Scale(Stage):
    def __init__(self, k, name):
        Stage.__init__(self, plug=RestrictedPlug(inputs=[name], outputs=[name]))
        self.k = k

    def _process_timeline(self, timeline):
        return timeline * self.k


def gen_c16(rng):
    srcs, un = [], []
    rows = rng.choice([1, 2, 3, 5])
    for _ in range(rng.choice([1, 1, 2, 3, 4, 4, 12 if rng.random() < 0.2 else 2]) if not NEW_INTS or rng.random() < 0.8 else near(rng, 30) or 6):
        x = name(rng, un)
        un.append(x)
        if rng.random() < 0.5:
            n = rng.choice([1, 2, 3, 7] if rng.random() < 0.9 else [64, 150, 300])
            if NEW_INTS and rng.random() < 0.3:
                n = near(rng, 400)
            raw = [[rng.randint(0, 999) for _ in range(rows)] for _ in range(n)]
            if rng.random() < 0.1:
                for r in raw:
                    r[rng.randrange(rows)] = rng.choice([float("nan"), 0.5, 0])
            srcs.append({"name": x, "raw": raw})
        else:
            res = rng.choice(["load", "quantity", "a"])
            cols = [res] + [k for k in ["b", "c", "to_shuffler_", "x"] if rng.random() < 0.3]
            if rng.random() < 0.2:
                cols.append(0)
            rng.shuffle(cols)
            srcs.append({"name": x, "tl": gen_timeline(rng, cols=cols, rows=rows, holes=0.15, scns=near(rng, 130) or 4 if NEW_INTS and rng.random() < 0.3 else rng.choice([1, 2, 3, 5] if rng.random() < 0.93 else [50, 130])), "res": res, "scale": rng.choice([None, 2, 3]), "rep": rng.choice([None, None, 2, 3])})
    if len(srcs) > 1 and rng.random() < 0.1:
        srcs[-1]["name"] = srcs[0]["name"]  # registered again: the last one counts
    late = {"name": rng.choice([srcs[0]["name"], "late"]), "raw": [[rng.randint(0, 999) for _ in range(rows)] for _ in range(rng.choice([1, 2, 4]))]} if rng.random() < 0.5 else None
    return {"srcs": srcs, "late": late, "nb": rng.choice([0, 1, 2, 3, 5, 9, 40]) if not NEW_INTS or rng.random() < 0.7 else near(rng, 400), "a": rng.choice([1, 3, 7, 11]), "b": rng.choice([0, 1, 2, 5]), "calls": rng.choice([1, 1, 2]), "real": rng.random() < 0.08, "default": rng.random() < 0.25}


def c16(c):
    smp = Sampler(c["a"], c["b"])
    sh = Shuffler() if c["default"] else Shuffler(sampler=smp)
    exp, keep = {}, []
    for s in c["srcs"]:
        if "raw" in s:
            arr = np.array(s["raw"])
            keep.append((arr, arr.copy()))
            need(sh.add_data(s["name"], arr) is sh, "add_data must return the shuffler")
            exp[s["name"]] = s["raw"]
        else:
            df = frame(s["tl"])
            keep.append((df, frozen(df)))
            stages = []
            if s["scale"]:
                stages.append(Scale(s["scale"], s["res"]))
            if s["rep"]:
                stages.append(RepeatScenario(s["rep"]))
            stages.append(ToShuffler(s["res"]))
            sh.add_pipeline(s["name"], df, Pipeline(stages=stages))
            rowsx = [v for (_, n), v in plain(s["tl"]) if n == s["res"]]
            exp[s["name"]] = [[x * (s["scale"] or 1) for x in v] for v in rowsx] * (s["rep"] or 1)
    for call in range(c["calls"]):
        if call and c.get("late"):  # registered between two calls
            arr = np.array(c["late"]["raw"])
            keep.append((arr, arr.copy()))
            sh.add_data(c["late"]["name"], arr)
            exp[c["late"]["name"]] = c["late"]["raw"]
        MODE["real_pool"] = c["real"]
        try:
            with quiet():
                got = sh.shuffle(c["nb"])
        finally:
            MODE["real_pool"] = False
        need(sorted(got) == sorted(exp), "shuffle gives %s, registered are %s", sorted(got), sorted(exp))
        for k, e in exp.items():
            g = np.array(got[k], dtype=float)
            need(g.shape[0] == c["nb"] and (c["nb"] == 0 or g.shape == (c["nb"], len(e[0]))), "shuffle %r has shape %s for %d draws", k, g.shape, c["nb"])
            if c["default"]:
                for i in range(c["nb"]):
                    need(any(all(same(float(a), float(b)) for a, b in zip(g[i], row)) for row in e), "row %d of %r is no scenario of its source: %s not in %s", i, k, g[i].tolist(), e)
            else:
                for i, j in enumerate(smp.pick(len(e), c["nb"])):
                    need(all(same(float(a), float(b)) for a, b in zip(g[i], e[j])), "row %d of %r is %s, the sampler picked scenario %d: %s", i, k, g[i].tolist(), j, e[j])
    for obj, k in keep:
        if isinstance(obj, pd.DataFrame):
            unchanged(obj, k, "shuffling")
        else:
            need(np.array_equal(obj, k, equal_nan=True), "shuffling modified a raw array")


def c16_independent(seed):
    """sources are tossed on their own, in each call; the whole range of scenarios is reached"""
    n = 1000
    sh = Shuffler()
    data = np.arange(n).reshape(n, 1)
    tl = pd.DataFrame(np.arange(50).reshape(1, 50), columns=pd.MultiIndex.from_tuples([(i, "a") for i in range(50)]))
    sh.add_data("a", data)
    sh.add_data("b", data)
    sh.add_pipeline("p", tl, Pipeline(stages=[RepeatScenario(1), ToShuffler("a")]))
    sh.add_pipeline("q", tl, Pipeline(stages=[RepeatScenario(1), ToShuffler("a")]))
    sh.add_data("c", np.arange(3).reshape(3, 1))
    outs = []
    for _ in range(2):
        MODE["real_pool"] = True
        try:
            with quiet():
                outs.append(sh.shuffle(300))
        finally:
            MODE["real_pool"] = False
    flat = lambda x: np.array(x).reshape(-1).tolist()
    need(flat(outs[0]["a"]) != flat(outs[0]["b"]), "two sources got the same draw")
    need(flat(outs[0]["p"]) != flat(outs[0]["q"]), "two pipelines got the same draw")
    for k in ("a", "b", "p", "q"):
        need(flat(outs[0][k]) != flat(outs[1][k]), "two calls gave the same draw for %s", k)
    need(set(flat(outs[0]["c"])) == {0, 1, 2}, "300 draws among 3 scenarios gave only %s", set(flat(outs[0]["c"])))


CHK = {"C14": c14, "C15": c15, "C16": c16}
GEN = {"C14": gen_c14, "C15": gen_c15, "C16": gen_c16}


def run(prop, rng, i):
    c = json.loads(json.dumps(GEN[prop](rng)))
    if prop == "C15" and i % 200 == 7:
        c = {"ranges": rng.randint(0, 10 ** 9)}
    if prop == "C16" and i % 300 == 11:
        c = {"independent": rng.randint(0, 10 ** 9)}
    try:
        replay(prop, c)
    except Exception as ex:
        raise Failure.wrap(ex, c)
    return c, True


def replay(prop, c):
    if "ranges" in c:
        return c15_ranges(c["ranges"])
    if "independent" in c:
        return c16_independent(c["independent"])
    CHK[prop](c)
