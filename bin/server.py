"""Sessions of the real server (juno_axum) between scripted clients and a scripted data service."""
import ctypes, fcntl, hashlib, http.client, json, os, random, signal, socket, subprocess, threading, time
import vlib

AXUM = vlib.TARGET + "/debug/juno_axum"
SERVICE, SERVER = 3030, 4040
DAY = 86400000
# Statuses: "api" with the service's own message, "apitext" and "server" without one, "busy" with the data all the same.
FAULTS = ["api400", "server500", "garbage", "cut", "drop", "shape", "api429", "empty", "apitext429", "cutchunk", "api404",
          "busy503", "api401", "missing", "null", "api422", "busy500", "api403", "server502", "garbage", "api409", "cut",
          "apitext404", "drop", "api451", "busy504", "shape", "api418", "server599", "empty", "api410", "missing"]
ABSTRACT = ("apitext", "api", "server", "busy", "cut")


def canon(v):
    return hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]


class Request:
    def __init__(self, case, q, exchange, seeded=True):
        self.case, self.q, self.exchange = case, q, exchange
        self.body = dict(case["body"], exchange=exchange)
        if not seeded:
            self.body.pop("seed", None)
        self.needs = ["info", "prices"] + ["%s|%d" % (s, i) for s in case["symbols"] for i in case["intervals"]]
        self.state = "idle"
        self.waiting = {}      # call -> connections held back
        self.kinds = {}        # call -> how it is answered, once decided
        self.seen = set()
        self.reply_seed = None
        self.doomed = False

    def lacking(self, call, i):
        """Data of the right shape which lacks something the request needs."""
        v = json.loads(self.data(call))
        s = self.case["symbols"][i % len(self.case["symbols"])]
        if call == "info":
            del v[["fees", "filters", "borrow_info"][i % 3]][s]
        elif call == "prices":
            del v[s.split("-")[i % 2]]
        else:
            return self.data(call).replace('"close"', '"closing"')
        return json.dumps(v)

    def doom(self, i):
        """Asks for something which parses, but cannot be computed."""
        b = json.loads(json.dumps(self.body))
        if self.case["kind"] == "backtest":
            b["trading"]["strategy"] = [
                {"type": "FourWeekRule", "period": 0, "ma": {"type": "Sma", "period": 3}},
                {"type": "DoubleMA", "mas": [{"type": "Sma", "period": 0}, {"type": "Ema", "period": 2}]},
                {"type": "TripleMA", "mas": [{"type": "Sma", "period": 5}, {"type": "Sma", "period": 4}, {"type": "Sma", "period": 3}]},
                {"type": "SingleMA", "ma": {"type": "Smma", "period": 0}}][i % 4]
        else:
            b["hall_of_fame_size" if i % 2 else "population_size"] = 0
        self.body, self.doomed = b, True

    def data(self, call):
        c = self.case
        if call == "info":
            return c["info"]
        if call == "prices":
            return "{" + ",".join('"%s":%s' % kv for kv in c["prices"].items()) + "}"
        return c["candles"][call]


class Service:
    """The data service: holds every call back until the schedule answers it."""

    def __init__(self, world):
        self.world = world
        self.listeners = []

    def open(self):
        socks = []
        for fam, host in ((socket.AF_INET, "127.0.0.1"), (socket.AF_INET6, "::1")):
            try:
                s = socket.socket(fam, socket.SOCK_STREAM)
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                if fam == socket.AF_INET6:
                    s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
                s.bind((host, SERVICE))
                s.listen(256)
                socks.append(s)
            except OSError:
                s.close()
                if fam == socket.AF_INET:
                    raise
        self.listeners = socks
        for s in socks:
            threading.Thread(target=self.accept, args=(s,), daemon=True).start()

    def close(self):
        for s in self.listeners:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()
        self.listeners = []

    def accept(self, s):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(30)
            buf = b""
            while b"\r\n\r\n" not in buf:
                d = c.recv(65536)
                if not d:
                    c.close()
                    return
                buf += d
            head, body = buf.split(b"\r\n\r\n", 1)
            lines = head.decode("latin1").split("\r\n")
            method, path = lines[0].split(" ")[:2]
            n = 0
            for h in lines[1:]:
                k, _, v = h.partition(":")
                if k.lower() == "content-length":
                    n = int(v)
            while len(body) < n:
                d = c.recv(65536)
                if not d:
                    break
                body += d
            self.world.arrived(method, path, body, c)
        except OSError:
            c.close()


def complaint(mark):
    return "rejected:\n " + mark


def send(c, kind, text, mark):
    """Answers a held call; returns nothing, errors of a peer that is gone are fine."""
    def resp(status, body, length=None, ctype="application/json"):
        b = body.encode()
        return (("HTTP/1.1 %s\r\nContent-Type: %s\r\nContent-Length: %d\r\nConnection: close\r\n\r\n"
                 % (status, ctype, len(b) if length is None else length)).encode() + b)
    try:
        if kind == "ok" and len(text) > 20000:
            # Much data comes piece by piece.
            b = text.encode()
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n"
                      + b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in (b[i:i + 7001] for i in range(0, len(b), 7001))) + b"0\r\n\r\n")
        elif kind == "ok":
            c.sendall(resp("200 OK", text))
        elif kind.startswith("apitext"):
            c.sendall(resp(kind[7:] + " Refused", "<html>slow down</html>", ctype="text/html"))
        elif kind.startswith("api"):
            c.sendall(resp(kind[3:] + " Refused", json.dumps({"message": complaint(mark), "code": 7})))
        elif kind.startswith("server"):
            c.sendall(resp(kind[6:] + " Failed", json.dumps({"message": "boom"})))
        elif kind.startswith("busy"):
            c.sendall(resp(kind[4:] + " Busy", text))
        elif kind == "null":
            c.sendall(resp("200 OK", "null"))
        elif kind == "garbage":
            c.sendall(resp("200 OK", "<html>"))
        elif kind == "shape":
            c.sendall(resp("200 OK", '{"unexpected": [1, 2, "x"]}'))
        elif kind == "empty":
            c.sendall(resp("200 OK", ""))
        elif kind == "cut":
            c.sendall(resp("200 OK", text[:max(1, len(text) // 2)], length=len(text.encode())))
        elif kind == "cutchunk":
            b = text[:max(1, len(text) // 2)].encode()
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n"
                      b"Connection: close\r\n\r\n%x\r\n" % len(b) + b + b"\r\n")
        # "drop", "gone": nothing at all
    except OSError:
        pass
    try:
        c.shutdown(socket.SHUT_RDWR)
    except OSError:
        pass
    c.close()


def abstract(kind):
    return next((a for a in ABSTRACT if kind.startswith(a)), kind)


class World:
    """One service, one server, and the log of the session being played."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cond = threading.Condition()
        self.log, self.reqs, self.past = [], {}, set()
        self.service = Service(self)
        self.proc = None
        self.patience, self.stalled = 0.25, 0

    def event(self, **kw):
        self.log.append(kw)
        self.cond.notify_all()

    # -- the service's side
    def arrived(self, method, path, body, conn):
        with self.cond:
            try:
                p = json.loads(body)
                name = p["exchange"]
            except (ValueError, KeyError, TypeError):
                name = None
            rq = self.reqs.get(name)
            if rq is None:
                # A straggler of an earlier session may be ignored, anything else may not.
                if name not in self.past:
                    self.event(e="call", q=1, c="?", what="%s %s %s" % (method, path, body[:200]))
                conn.close()
                return
            call = self.which(method, path, p, rq)
            self.event(e="call", q=rq.q, c=call, **({} if call != "?" else {"what": "%s %s %s" % (method, path, body[:300])}))
            if call == "?":
                conn.close()
                return
            rq.seen.add(call)
            if call in rq.kinds:
                self.answer(rq, call, conn)
            else:
                rq.waiting.setdefault(call, []).append(conn)
                self.cond.notify_all()

    def which(self, method, path, p, rq):
        c = rq.case
        if method != "POST":
            return "?"
        if path == "/exchange_info":
            return "info"
        if p.get("start") != c["start"] or p.get("end") != c["end"]:
            return "?"
        if path == "/prices":
            need = {a for s in c["symbols"] for a in s.split("-")} | {"btc"}
            if p.get("interval") != DAY or p.get("target_asset") != "usdt" or not need <= set(p.get("assets", [])):
                return "?"
            return "prices"
        if path == "/candles" and p.get("type_") == "regular":
            k = "%s|%s" % (p.get("symbol"), p.get("interval"))
            return k if k in rq.needs else "?"
        return "?"

    def answer(self, rq, call, conn):
        kind = rq.kinds[call]
        self.event(e="answer", q=rq.q, c=call, k=abstract(kind))
        threading.Thread(target=send, args=(conn, *(("ok", rq.lacking(call, self.ctx.seed + len(self.log))) if kind == "missing" else (kind, rq.data(call))), "<%s:%s>" % (rq.exchange, call)), daemon=True).start()

    # -- the clients' side
    def ask(self, rq):
        with self.cond:
            rq.state = "open"
            self.event(e="ask", q=rq.q)
        threading.Thread(target=self.client, args=(rq,), daemon=True).start()

    def client(self, rq):
        status, data = ask_http("POST", "/" + rq.case["kind"], json.dumps(rq.body))
        with self.cond:
            rq.state = "done"
            self.event(**self.reply(rq, status, data))

    def reply(self, rq, status, data):
        try:
            v = json.loads(data)
        except ValueError:
            v = None
        odd = {"e": "odd", "q": rq.q, "status": status, "body": data[:500].decode(errors="replace")}
        if status == 500 and isinstance(v, dict) and "message" in v and not {"symbol_stats", "generations"} & set(v):
            m = v["message"]
            named = [c for c in rq.needs if "<%s:%s>" % (rq.exchange, c) in m] if isinstance(m, str) else []
            return {"e": "bad", "q": rq.q, "message": isinstance(m, str) and m != "", "named": named, "text": m}
        if status != 200 or not isinstance(v, dict):
            return odd
        try:
            if rq.case["kind"] == "backtest":
                return {"e": "good", "q": rq.q, "stats": pairs(v["symbol_stats"])}
            rq.reply_seed = v["seed"]
            return {"e": "good", "q": rq.q, "seed": str(v["seed"]),
                    "gens": [{"nr": g["nr"], "inds": [individual(i) for i in g["hall_of_fame"]],
                              "syms": symbols_of(g)} for g in v["generations"]]}
        except (KeyError, TypeError):
            return odd

    # -- processes
    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
        env["RUST_LOG"] = "off"
        def die():
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        for _ in range(60):
            self.proc = subprocess.Popen([AXUM], env=env, cwd=self.ctx.work, preexec_fn=die,
                                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for _ in range(100):
                if self.proc.poll() is not None:
                    break
                if ask_http("GET", "/", timeout=2)[0] == 200:
                    return
                time.sleep(0.02)
            self.stop()
            time.sleep(0.5)
        raise vlib.ToolError("the server does not start (is port %d taken?)" % SERVER)

    def stop(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
            self.proc = None

    # -- a session
    def play(self, reqs, steps, faults):
        """steps: [what, q, index of call, ok|bad]; faults: how a call fails."""
        by = {rq.q: rq for rq in reqs}
        with self.cond:
            self.past |= set(self.reqs)
            self.log, self.reqs = [], {rq.exchange: rq for rq in reqs}
        pending = [list(s) for s in steps]
        deadline = time.time() + 60
        while pending:
            with self.cond:
                if time.time() > deadline:
                    break
                i = self.choose(by, pending)
                if i is None:
                    self.cond.wait(0.2)
                    continue
                what, q, c, k = pending.pop(i)
                if what == "ans":
                    rq = by[q]
                    call = rq.needs[c - 1]
                    if rq.state != "done":
                        rq.kinds[call] = "ok" if k == "ok" else faults(call)
                        for conn in rq.waiting.pop(call, []):
                            self.answer(rq, call, conn)
                        # A schedule is an order of answers: let this one sink in.
                        self.cond.wait_for(lambda: rq.state == "done", 0.002)
                    continue
            if what == "ask":
                self.ask(by[q])
                if not self.service.listeners:
                    self.until(lambda: by[q].state == "done", 20)
            elif what == "down":
                with self.cond:
                    # Connections of calls made so far are through, or were never needed.
                    ready = lambda: all(rq.state != "open" or set(rq.needs) <= rq.seen for rq in reqs)
                    self.cond.wait_for(ready, 4 * self.patience)
                    self.event(e="down")
                self.service.close()
            elif what == "up":
                self.service.open()
                with self.cond:
                    self.event(e="up")
        self.until(lambda: all(rq.state == "done" for rq in reqs), 60)
        with self.cond:
            for rq in reqs:
                if rq.state != "done":
                    rq.state = "done"
                    self.event(e="silent", q=rq.q)
                for call, conns in rq.waiting.items():
                    for conn in conns:
                        conn.close()
                rq.waiting = {}
                for call in rq.needs:
                    rq.kinds.setdefault(call, "gone")
            self.past |= set(self.reqs)
            self.reqs = {}
        return self.log

    def until(self, f, t):
        with self.cond:
            self.cond.wait_for(f, t)

    def choose(self, by, pending):
        """The next step which can be taken; a code that makes its calls one by one is given them."""
        def able(s):
            if s[0] != "ans":
                return all(p[0] == "ans" for p in pending[:pending.index(s)]) or s is pending[0]
            rq = by[s[1]]
            if rq.state == "done":
                return True
            return rq.needs[s[2] - 1] in rq.waiting
        if able(pending[0]):
            return 0
        if self.cond.wait_for(lambda: able(pending[0]), self.patience):
            return 0
        self.patience = max(0.01, self.patience * 0.8)
        for i, s in enumerate(pending):
            if s[0] == "ans" and able(s):
                self.stalled = 0
                return i
        self.stalled += 1
        for i, s in enumerate(pending):
            if s[0] != "ans" and self.stalled > 4:
                self.stalled = 0
                return i
        return None


def ask_full(method, path, body, headers):
    """Status, headers in lower case, body; status 0 without a reply."""
    try:
        h = http.client.HTTPConnection("127.0.0.1", SERVER, timeout=40)
        h.request(method, path, body=body, headers=headers)
        r = h.getresponse()
        d = r.read()
        hs = {k.lower(): v for k, v in r.getheaders()}
        h.close()
        return r.status, hs, d
    except (OSError, http.client.HTTPException):
        return 0, {}, b""


def ask_http(method, path, body=None, headers=None, timeout=40):
    try:
        h = http.client.HTTPConnection("127.0.0.1", SERVER, timeout=timeout)
        h.request(method, path, body=body, headers=headers or ({"Content-Type": "application/json"} if body else {}))
        r = h.getresponse()
        d = r.read()
        h.close()
        return r.status, d
    except (OSError, http.client.HTTPException):
        return 0, b""


def pairs(m):
    return [[k, canon(v)] for k, v in sorted(m.items())]


def individual(i):
    return "%s/%s" % (canon(i["individual"]), canon(i["symbol_stats"]))


def symbols_of(g):
    s = {tuple(sorted(i["symbol_stats"])) for i in g["hall_of_fame"]}
    return list(s.pop()) if len(s) == 1 else ["?"]


def malformed(case):
    """Requests no server should accept."""
    ok = dict(case["body"], exchange="nowhere")
    path = "/" + case["kind"]
    j = {"Content-Type": "application/json"}
    yield "POST", path, "{", j
    yield "POST", path, "", j
    yield "POST", path, "[]", j
    yield "POST", path, json.dumps(ok), {"Content-Type": "text/plain"}
    for k in sorted(ok):
        if k not in ("seed",):
            yield "POST", path, json.dumps({a: b for a, b in ok.items() if a != k}), j
            yield "POST", path, json.dumps(dict(ok, **{k: "?" if k == "context" else {"not": "this"}})), j
    if case["kind"] == "backtest":
        t = dict(ok["trading"], strategy=dict(ok["trading"]["strategy"], type="Clairvoyance"))
        yield "POST", path, json.dumps(dict(ok, trading=t)), j
        yield "GET", path, None, {}
    else:
        yield "POST", path, json.dumps(dict(ok, evaluation_statistic="Luck")), j
        yield "POST", path, json.dumps(dict(ok, population_size=-3)), j
        yield "PUT", path, json.dumps(ok), j
    yield "GET", "/nowhere", None, {}
    yield "POST", "/", json.dumps(ok), j


def words(hs, name):
    return [x.strip() for x in hs.get(name, "").split(",") if x.strip()]


class Page:
    """A page of some origin, used through a browser."""

    def __init__(self, world, p, rng, cases, tag):
        self.world, self.p, self.rng, self.cases, self.tag = world, p, rng, cases, tag
        self.origin = rng.choice(["http://localhost:%d" % (3000 + p), "https://juno.example", "null", "http://[::1]:8080"])

    def event(self, **kw):
        with self.world.cond:
            self.world.event(p=self.p, **kw)

    def call(self, i):
        rng = self.rng
        m = rng.choice(["GET", "POST", "POST", "POST", "POST", "HEAD", "PUT", "DELETE", "PATCH"])
        path = rng.choice(["/", "/backtest", "/backtest", "/optimize", "/optimize", "/optimize", "/nowhere", "/optimize/extra", "/Backtest"])
        headers, hs, body, kind = {}, [], None, "plain"
        if rng.random() < 0.2:
            headers["X-Requested-With"] = "page"
            hs.append("x-requested-with")
        if m not in ("GET", "HEAD"):
            case = rng.choice(self.cases.get(path[1:]) or next(iter(self.cases.values())))
            rq = Request(case, self.p, "%s-%d" % (self.tag, i))
            body = json.dumps(rq.body)
            if rng.random() < 0.7:
                headers["Content-Type"] = "application/json"
                hs.append("content-type")
                kind = rng.choice(["good", "fails", "plain"]) if m == "POST" and path in ("/backtest", "/optimize") else "plain"
            else:
                headers["Content-Type"] = "text/plain"
            if kind == "plain":
                body = rng.choice([body[:-1], "", "{}", body]) if "content-type" not in hs else rng.choice([body[:-1], "{}", "[1]"])
            else:
                rq.kinds = {c: "ok" for c in rq.needs}
                if kind == "fails":
                    rq.kinds[rng.choice(rq.needs)] = rng.choice([f for f in FAULTS if f != "missing"])
                with self.world.cond:
                    self.world.reqs[rq.exchange] = rq
        self.event(e="want", origin=self.origin, m=m, path=path, hs=hs, body=kind)
        url = path + ("?from=page" if rng.random() < 0.1 else "")
        if hs or m not in ("GET", "HEAD", "POST"):
            h = {"Origin": self.origin, "Access-Control-Request-Method": m}
            if hs:
                h["Access-Control-Request-Headers"] = ",".join(sorted(hs))
            status, r, _ = ask_full("OPTIONS", url, None, h)
            self.event(e="pre", status=status, ao=r.get("access-control-allow-origin", ""),
                       am=words(r, "access-control-allow-methods"), ah=[x.lower() for x in words(r, "access-control-allow-headers")])
        status, r, d = ask_full(m, url, body, dict(headers, Origin=self.origin))
        try:
            v = json.loads(d)
        except ValueError:
            v = None
        told = isinstance(v, dict) and isinstance(v.get("message"), str) and v["message"] != ""
        self.event(e="got", status=status, ao=r.get("access-control-allow-origin", ""), told=int(told),
                   doc=int(isinstance(v, dict) and r.get("content-type", "").startswith("application/json")))
        if m == "GET" and path == "/optimize" and status == 200:
            v = v if isinstance(v, dict) else {}
            self.event(e="offer", stats=v.get("evaluation_statistics", []), aggs=v.get("evaluation_aggregations", []))


def pages(ctx, nruns):
    """Pages of several origins use one server at the same time."""
    os.makedirs(vlib.VERIF + "/work", exist_ok=True)
    lock = open(vlib.VERIF + "/work/server.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    kinds = ["backtest:2:1", "optimize:2:1"]
    cases = {}
    for line in open(ctx.drive("server", kinds=",".join(kinds), n=12)):
        c = json.loads(line)
        cases.setdefault(c["kind"], []).append(c)
    w = World(ctx)
    runs = []
    try:
        for _ in range(60):
            try:
                w.service.open()
                break
            except OSError:
                time.sleep(0.5)
        else:
            raise vlib.ToolError("port %d is taken" % SERVICE)
        w.start()
        for n in range(nruns):
            rng = random.Random(ctx.seed * 100003 + n)
            count = rng.choice([1, 1, 2, 3, 6])
            with w.cond:
                w.past |= set(w.reqs)
                w.log, w.reqs = [], {}
            def use(p):
                page = Page(w, p, random.Random(ctx.seed * 7919 + n * 31 + p), cases, "p%d-%d" % (n, p))
                for i in range(rng.choice([3, 6])):
                    page.call(i)
            ts = [threading.Thread(target=use, args=(p,), daemon=True) for p in range(1, count + 1)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            # What the service was asked is not the business of the pages.
            with w.cond:
                ev = [x for x in w.log if "p" in x]
            runs.append({"id": n + 1, "kind": "pages", "cfg": {"pages": count}, "ev": ev})
            if w.proc.poll() is not None:
                w.stop()
                w.start()
    finally:
        w.stop()
        w.service.close()
        lock.close()
    out = ctx.path("pages.ndjson")
    with open(out, "w") as o:
        for r in runs:
            o.write(json.dumps(r) + "\n")
    return out


def sessions(ctx, plans, kinds, ncases, probe=False, offer=False):
    """plans: lists of (steps, number of requests).  Plays them all; returns the trace file."""
    os.makedirs(vlib.VERIF + "/work", exist_ok=True)
    lock = open(vlib.VERIF + "/work/server.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    casesf = ctx.drive("server", kinds=",".join(kinds), n=ncases)
    cases = [json.loads(l) for l in open(casesf)]
    by_kind = {}
    for c in cases:
        by_kind.setdefault(kinds[c["i"] % len(kinds)], []).append(c)
    w = World(ctx)
    runs, later = [], []
    turn = 0

    # Each kind of call fails in every way in turn; other ways at other times for other kinds.
    turns = {}

    def faults(call):
        what = call if call in ("info", "prices") else "candles"
        i = turns[what] = turns.get(what, ctx.seed + 11 * len(turns)) + 1
        return FAULTS[i % len(FAULTS)]
    try:
        for _ in range(60):
            try:
                w.service.open()
                break
            except OSError:
                time.sleep(0.5)
        else:
            raise vlib.ToolError("port %d is taken" % SERVICE)
        w.start()
        for n, (want, steps) in enumerate(plans):
            reqs = []
            # Requests which leave nothing behind may all name the same exchange.
            calm = len(want) == 1 and not any(x[3] == "bad" or x[0] == "down" for x in steps)
            for q, kind in enumerate(want, 1):
                pool = by_kind[kind]
                reqs.append(Request(pool[(turn + q) % len(pool)], q, "x" if calm else "x%d-%d" % (n, q), seeded=(n + q) % 4 != 0))
                if probe and (n + q) % 9 == 4:
                    reqs[-1].doom(n // 9)
            turn += len(want)
            ev = w.play(reqs, steps, faults)
            if probe:
                c = reqs[0].case
                for i, (m, p, b, h) in enumerate(malformed(c)):
                    if i % 7 == n % 7:
                        ev.append({"e": "refused", "status": ask_http(m, p, b, h)[0], "what": "%s %s %s" % (m, p, (b or "")[:200])})
            if offer and n % 10 == 0:
                try:
                    v = json.loads(ask_http("GET", "/optimize")[1])
                    ev.append({"e": "offer", "stats": v["evaluation_statistics"], "aggs": v["evaluation_aggregations"]})
                except (ValueError, KeyError, TypeError):
                    ev.append({"e": "odd", "status": 0})
            alive = ask_http("GET", "/")
            ev.append({"e": "hello", "ok": alive[0] == 200 and w.proc.poll() is None})
            cfg = []
            for rq in reqs:
                c = {"kind": rq.case["kind"], "needs": rq.needs, "syms": sorted(rq.case["symbols"]),
                     "doomed": rq.doomed, "seed": str(rq.body["seed"]) if "seed" in rq.body else "", "gens": [], "want": []}
                if rq.case["kind"] == "backtest":
                    c["want"] = pairs(rq.case["want"])
                elif rq.reply_seed is not None:
                    later.append((c, {"case": rq.case["i"], "seed": str(rq.reply_seed)}))
                cfg.append(c)
            runs.append({"id": n + 1, "kind": "session", "cfg": {"reqs": cfg, "steps": steps}, "ev": ev})
            if not ev[-1]["ok"]:
                w.stop()
                w.start()
    finally:
        w.stop()
        w.service.close()
        lock.close()
    if later:
        f = ctx.path("direct.in")
        with open(f, "w") as o:
            o.write("".join(json.dumps(x) + "\n" for _, x in later))
        d = ctx.drive("server-direct", scen=f, kinds=",".join(kinds))
        for (c, _), line in zip(later, open(d)):
            v = json.loads(line)
            if isinstance(v, dict):
                raise vlib.Violation("the library panics where the server answers", {"driver": "server-direct", "message": v})
            c["gens"] = [{"rank": g["rank"], "inds": [individual(i) for i in g["inds"]]} for g in v]
    out = ctx.path("server.ndjson")
    with open(out, "w") as o:
        for r in runs:
            o.write(json.dumps(r) + "\n")
    return out
