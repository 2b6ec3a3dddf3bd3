"""C13: RemoteOptimizer against a real scripted HTTP server on the loopback interface."""
import os
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, urlparse

os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
for _k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
    os.environ.pop(_k, None)

from common import *

STATE = {}


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def _do(self, method):
        n = int(self.headers.get("Content-Length") or 0)
        body = self.rfile.read(n) if n else b""
        u = urlparse(self.path)
        STATE["log"].append({"method": method, "path": u.path, "query": parse_qs(u.query, keep_blank_values=True), "body": body})
        i = len(STATE["log"]) - 1
        code, doc = STATE["script"][i] if i < len(STATE["script"]) else (418, {})
        if i >= len(STATE["script"]):
            STATE["over"] = True
            doc = {"status": "ERROR", "message": "script exhausted"}
        data = json.dumps(doc).encode()
        self.send_response(code)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        self.wfile.write(data)

    def do_GET(self):
        self._do("GET")

    def do_POST(self):
        self._do("POST")


def server():
    if "srv" not in STATE:
        s = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        STATE["srv"] = s
    return "http://127.0.0.1:%d" % STATE["srv"].server_address[1]


def gen(rng):
    d = gen_desc(rng, maxbig=12)
    n = rng.choice([0, 1, 1, 2, 3, 5, rng.randint(0, 12), rng.randint(10, 45) if rng.random() < 0.15 else 2])
    if rng.random() < 0.02:
        n = rng.choice([130, 300, 700])
    if NEW_INTS and rng.random() < 0.25:
        n = max(0, rng.choice(NEW_INTS) + rng.choice([-2, -1, 0, 1, 5]))
    if NEW_INTS and rng.random() < 0.02:
        n = min(2 * max(NEW_INTS) + 40, 800)
    stay = rng.random() if n > 30 else 1
    seq = []
    for _ in range(n):
        if seq and rng.random() > stay:
            seq.append([seq[-1][0], rng.randint(0, 9)])
            continue
        seq.append([rng.choice(["QUEUED", "COMPUTING"]), rng.randint(0, 9)])
    end = rng.choice(["TERMINATED", "TERMINATED", "ERROR", 403, 404, 500])
    at_ = None
    if isinstance(end, int) and n and rng.random() < 0.7:
        seq = seq[:rng.randint(0, n)]
    return {"desc": d, "seed": rng.randint(0, 10 ** 9), "seq": seq, "end": end, "job": rng.choice(["1", "abc", "a-b-c", 17, "00ff", 0]),
            "token": rng.choice(["", "none", "secret token", "a&b=c", "é"]), "first": rng.choice(["QUEUED", "QUEUED", "COMPUTING"]),
            "at_post": rng.random() < (0.3 if isinstance(end, int) else 0.06), "progress": rng.randint(0, 5),
            "msg": rng.choice(NEW_STRS + ["boom", "out of memory", "x" * 50, "QUEUED", ""]), "rdesc": gen_desc(rng, maxbig=6) if rng.random() < 0.3 else None}


def check(c):
    from hadar import RemoteOptimizer

    d = c["desc"]
    st = build(d)
    before = study_image(st)
    want = json.loads(json.dumps(st.to_json()))
    res = fake_result(c.get("rdesc") or d, random.Random(c["seed"]))
    doc = res.to_json()
    exp = result_image(res)
    end = c["end"]
    if end == "TERMINATED":
        last = (200, {"job": c["job"], "status": "TERMINATED", "progress": 0, "result": doc})
    elif end == "ERROR":
        last = (200, {"job": c["job"], "status": "ERROR", "progress": 0, "message": c["msg"]})
    else:  # an HTTP error, with a body that looks like a good answer
        last = (end, {"job": c["job"], "status": "TERMINATED", "progress": 0, "result": doc})
    if c["at_post"]:
        script = [last]
    else:
        script = [(200, {"job": c["job"], "status": c["first"], "progress": c["progress"]})]
        script += [(200, {"job": c["job"], "status": s, "progress": p}) for s, p in c["seq"]]
        script.append(last)
    url = server()
    STATE.update(script=script, log=[], over=False)
    got, err = None, None
    opt = STATE.get(("opt", c["token"]))
    if opt is None or c["seed"] % 3 == 0:  # an optimizer solves many studies
        opt = STATE["opt", c["token"]] = RemoteOptimizer(url=url, token=c["token"])
    try:
        with quiet():
            got = opt.solve(st)
    except Exception as ex:
        err = ex
    log = STATE["log"]
    need(not STATE["over"], "more requests than answers: the job had ended at request %d (%s)", len(script), end)
    need(len(log) == len(script), "%d requests, %d answers scripted (%s); error %r", len(log), len(script), [s for s, _ in c["seq"]], err)
    need(log[0]["method"] == "POST" and log[0]["path"] == "/api/v1/study", "first request is %s %s", log[0]["method"], log[0]["path"])
    need(json.loads(log[0]["body"]) == want, "the posted document is not the study")
    for i, q in enumerate(log):
        need(q["query"].get("token", [""]) == [c["token"]], "request %d has token %s", i, q["query"])
        if i:
            need(q["method"] == "GET" and q["path"] == "/api/v1/result/%s" % c["job"], "poll %d is %s %s", i, q["method"], q["path"])
    if end == "TERMINATED":
        need(err is None, "%s raised instead of the result", repr(err))
        dd = diff(result_image(got), exp, "result")
        need(dd is None, "returned result differs from the server's: %s", dd)
    else:
        need(err is not None, "a result was returned although the answer was %s", end)
        if end in (403, 404):
            need(isinstance(err, ValueError), "HTTP %d raised %r", end, err)
        elif end == 500:
            need(isinstance(err, IOError), "HTTP 500 raised %r", err)
        else:
            need(c["msg"] in str(err), "job error raised %r, message was %r", err, c["msg"])
    dd = diff(study_image(st), before, "study")
    need(dd is None, "solving remotely changed the study: %s", dd)


def run(prop, rng, i):
    c = json.loads(json.dumps(gen(rng)))
    try:
        check(c)
    except Exception as ex:
        raise Failure.wrap(ex, c)
    return c, len(c["seq"]) > 0


def replay(prop, case):
    check(case)
