"""Plays schedules of TLC between the real client of the data service and a scripted service."""
import json, os, random, socket, subprocess, threading, time
import vlib, server

OPS = ["info", "candles", "filled", "intervals", "prices"]
PATHS = {"/exchange_info": "info", "/candles": "candles", "/candles_fill_missing_with_none": "filled",
         "/candle_intervals": "intervals", "/prices": "prices"}
FAULTS = ["api400", "drop", "server500", "api404", "garbage", "busy503", "api429", "shape", "cut", "api401", "empty",
          "apitext404", "null", "server502", "api422", "cutchunk", "apitext400", "busy500", "api451", "server504", "api499"]


class Call:
    """One call: its arguments, and what the service has to say about it."""

    def __init__(self, rng, q, op, name):
        self.q, self.op, self.name = q, op, name
        iv = rng.choice([60000, 3600000, 86400000, 604800000, 2629746000, 1])
        start = rng.choice([0, 1546300800000, 1583107200000, 253402214400000]) + rng.randrange(3)
        self.args = {"exchange": name, "op": op, "q": q}
        if op in ("candles", "filled"):
            self.args.update(symbol=rng.choice(["eth-btc", "a-b", "\u00e9-\"x\"", "ETH-BTC", " eth-btc ", "a-b-c"]), interval=iv, start=start,
                             end=start + iv * rng.randrange(4), type=rng.choice(["regular", "heikin-ashi"]))
        if op == "prices":
            self.args.update(assets=rng.sample(["btc", "eth", "ltc", "usdt", "BTC", "Eth", " eth", "\u00e9-x", ""], rng.randrange(5)), interval=iv, start=start,
                             end=start + 7, target=rng.choice(["usdt", "btc", "USDT"]))
        self.value = self.data(rng, start, iv)
        self.tail = rng.choice(["", "\n", " \t ", "\r\n\r\nsecond: %s", "\u20ac" * 3000, " {} \\n \\"])
        self.kind, self.conns, self.done = None, [], False
        self.answered = False

    def data(self, rng, start, iv):
        num = lambda: rng.choice([0.0, 1.5, 0.1, 1e-8, 12345.6789, 0.30000000000000004, 1e21, 7.0])
        candle = lambda i: {"time": start + i * iv, "open": num(), "high": num(), "low": num(), "close": num(), "volume": num()}
        # Usually in order; the client has no business to care.
        odd = rng.random() < 0.3
        at = lambda i: rng.randrange(6) if odd else i
        n = rng.randrange(5)
        self.many = rng.random() < 0.04
        if self.many and self.op in ("candles", "filled", "intervals"):
            n = rng.choice([257, 1500, 1500, 9000]) if self.op != "intervals" else 300
            at = lambda i: i
        if self.op == "info":
            flt = lambda: {"price": {"min": num(), "max": num(), "step": num()}, "size": {"min": num(), "max": num(), "step": num()},
                           "base_precision": rng.randrange(9), "quote_precision": rng.randrange(9)}
            syms = rng.sample(["eth-btc", "ltc-btc", "__all__"], n % 4)
            return {"assets": {a: {"precision": rng.randrange(9)} for a in ["btc", "eth"][:n]},
                    "fees": {s: {"maker": num(), "taker": num()} for s in syms},
                    "filters": {s: flt() for s in syms},
                    "borrow_info": {s: {a: {"interest_interval": iv, "interest_rate": num(), "limit": num()} for a in s.split("-")}
                                    for s in syms}}
        if self.op == "candles":
            return [candle(at(i)) for i in range(n)]
        if self.op == "filled":
            return [candle(at(i)) if rng.random() < 0.6 else None for i in range(n)]
        if self.op == "intervals":
            if n > 6:
                return [60000 * (i + 1) for i in range(n)]
            return rng.sample([60000, 3600000, 86400000, 604800000, 1, 2629746000], n)
        return {a: [num() for _ in range(800 if self.many else rng.randrange(4))] for a in self.args["assets"]}

    def asked(self, method, path, body):
        """Does the request say exactly what was asked for?"""
        a = self.args
        want = {"exchange": a["exchange"]}
        if self.op in ("candles", "filled"):
            want.update(symbol=a["symbol"], interval=a["interval"], start=a["start"], end=a["end"], type_=a["type"])
        if self.op == "prices":
            want.update(assets=a["assets"], interval=a["interval"], start=a["start"], end=a["end"], target_asset=a["target"])
        return body == want

    def status(self):
        d = "".join(c for c in self.kind or "" if c.isdigit())
        return int(d) if d else 0

    def mark(self):
        return "<%s \u00fc\">%s" % (self.name, self.tail)


class World:
    def __init__(self, ctx):
        self.ctx, self.cond, self.log, self.calls, self.past = ctx, threading.Condition(), [], {}, set()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()
        env = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
        self.proc = subprocess.Popen([vlib.HARNESS, "client", "--url", "http://127.0.0.1:%d" % self.port], env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        threading.Thread(target=self.listen, daemon=True).start()

    def close(self):
        self.sock.close()
        self.proc.kill()
        self.proc.wait()

    def event(self, **kw):
        self.log.append(kw)
        self.cond.notify_all()

    def accept(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=server.Service.serve, args=(self, c), daemon=True).start()

    @property
    def world(self):
        return self

    def arrived(self, method, path, body, conn):
        with self.cond:
            try:
                p = json.loads(body)
                call = self.calls.get(p["exchange"])
            except (ValueError, KeyError, TypeError):
                p = call = None
            if call is None:
                if not (p and p.get("exchange") in self.past):
                    self.event(e="stray", what="%s %s %s" % (method, path, body[:300]))
                conn.close()
                return
            if call.answered:
                # Repeated after a failure: the same again.
                threading.Thread(target=server.send, args=(conn, call.kind, json.dumps(call.value), call.mark()), daemon=True).start()
                return
            self.event(e="request", q=call.q, method=method, path=path, same=call.asked(method, path, p), body=body.decode(errors="replace"))
            call.conns.append(conn)

    def listen(self):
        for line in self.proc.stdout:
            x = json.loads(line)
            with self.cond:
                call = next(c for c in self.calls.values() if c.q == x["q"])
                r = x["r"]
                call.done = True
                if r["kind"] == "ok":
                    self.event(e="return", q=call.q, kind="ok", value=server.canon(r["value"]))
                elif r["kind"] == "api":
                    self.event(e="return", q=call.q, kind="api", status=r["status"], path=r["path"], message=r["message"],
                               told=r["message"] in r["text"])
                else:
                    self.event(e="return", q=call.q, kind=r["kind"], text=r.get("text", ""))

    def wait(self, f, t=30):
        with self.cond:
            return self.cond.wait_for(f, t)

    def play(self, calls, steps, faults):
        by = {c.q: c for c in calls}
        with self.cond:
            self.past |= set(self.calls)
            self.log, self.calls = [], {c.name: c for c in calls}
        for what, q, _, k in steps:
            c = by[q]
            if what == "ask":
                with self.cond:
                    self.event(e="ask", q=q)
                self.proc.stdin.write(json.dumps(c.args) + "\n")
                self.proc.stdin.flush()
            else:
                self.wait(lambda: c.conns or c.done)
                with self.cond:
                    if c.done or not c.conns:
                        continue
                    c.kind = "ok" if k == "ok" else next(faults)
                    self.event(e="answer", q=q, k=server.abstract(c.kind))
                    c.answered = True
                    for conn in c.conns:
                        threading.Thread(target=server.send, args=(conn, c.kind, json.dumps(c.value), c.mark()), daemon=True).start()
                if k != "ok" or q % 2:
                    self.wait(lambda: c.done)
        if not self.wait(lambda: all(c.done for c in calls)):
            with self.cond:
                self.event(e="silent")
        return self.log


def sessions(ctx, plans):
    """Trace file of the schedules: every session has its calls rotate through the operations."""
    rng = random.Random(ctx.seed)
    faults = list(FAULTS)
    rng.shuffle(faults)
    def endless():
        while True:
            yield from faults
    gen, out, w = endless(), ctx.path("client.ndjson"), World(ctx)
    try:
        with open(out, "w") as f:
            for i, steps in enumerate(plans):
                n = max(s[1] for s in steps)
                calls = [Call(rng, q, OPS[(i + q * (1 + i // 5 % 4)) % 5], "x%d.%d" % (i, q)) for q in range(1, n + 1)]
                log = w.play(calls, steps, gen)
                f.write(json.dumps({"id": i + 1, "kind": "client", "cfg": {"calls": [
                    {"op": c.op, "want": server.canon(c.value), "status": c.status(), "message": server.complaint(c.mark())}
                    for c in calls]}, "ev": log}) + "\n")
    finally:
        w.close()
    return out
