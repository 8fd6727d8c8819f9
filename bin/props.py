"""What every check runs: design models, scenario generation, drivers, trace validation."""
import re
import client
import server

ASSUMPTIONS = [
    "TLC, the Json/IOUtils community modules and the JVM are trusted",
    "the drivers record results of the public API faithfully (integer projection documented in DESIGN.md)",
]


def literal(v):
    """TLC's configuration files know no a..b."""
    m = re.fullmatch(r"(\d+)\.\.(\d+)", str(v))
    return "{" + ", ".join(map(str, range(int(m.group(1)), int(m.group(2)) + 1))) + "}" if m else v


def cfg(spec, consts=None, invs=(), props=(), deadlock=True, view=None, constraint=None):
    s = "SPECIFICATION %s\n" % spec
    if consts:
        s += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, literal(v)) for k, v in consts.items())
    if invs:
        s += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        s += "PROPERTIES " + " ".join(props) + "\n"
    if view:
        s += "VIEW %s\n" % view
    if constraint:
        s += "CONSTRAINT %s\n" % constraint
    s += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return s


def tlaset(xs):
    return "{" + ", ".join('"%s"' % x for x in sorted(xs)) + "}"


ALL_TRADE = {"life", "entry", "exit", "long", "short", "size"}
TRADE_INV = ["TypeOK", "FreshIsPrevailing", "LongFunded", "Extremes", "SideFollowsAdvice", "ShortBounded"]
TRADE_PROPS = ["OnlyOneStep", "OpensAreFresh", "Constants", "NotSameCandle", "CashMoves"]


def trade(aspects, invs=()):
    def run(c):
        c.model("TradeMC", cfg("MCSpec", {"ASPECTS": tlaset(ALL_TRADE), "LEN": c.n(4, 6),
                                          "PRICES": "{4, 6, 8}", "GAPS": c.n("{0}", "{0, 1}")},
                               TRADE_INV, TRADE_PROPS))
        scn = c.generate("TradeGen", cfg("GenSpec", {"ASPECTS": tlaset(ALL_TRADE), "LEN": c.n(5, 6),
                                                     "PRICES": "{4, 6, 8}", "GAPS": "{0, 2}"},
                                         ["Emit"], deadlock=False), limit=c.n(3000, 60000))
        tr = c.drive("trade", scen=scn)
        c.validate("TradeTV", cfg("TVSpec", {"ASPECTS": tlaset(aspects)},
                                  ["TypeOK", "FreshIsPrevailing", "Extremes"] + list(invs)), tr)
    return run


def causal(c):
    c.model("CausalMC", cfg("MCSpec", {"LEN": c.n(8, 12), "PEEK": "FALSE"}, ["Monotone", "AllRevealed"]))
    c.refutes("CausalMC", cfg("MCSpec", {"LEN": 8, "PEEK": "TRUE"}, ["AllRevealed"]), "AllRevealed")
    tr = c.drive("causal")
    c.validate("CausalTV", cfg("TVSpec", None, ["Monotone"]), tr)


EXIT_INV = ["Bracket", "BothIsEither", "TrailDominatesBasic", "NeverBothSides"]


def exits(aspect):
    def run(c):
        c.model("ExitLoopMC", cfg("MCSpec", {"ASPECTS": tlaset({"stop", "take"}), "PRICES": c.n("{2, 3, 4, 5, 6}", "2..12"),
                                             "PROGS": "{0, 5000, 10000}"},
                                  EXIT_INV + ["Noop"], ["Forgets"]))
        tr = c.drive("exits")
        c.validate("ExitTV", cfg("TVSpec", {"ASPECTS": tlaset({aspect})}, ["Bracket"]), tr)
        # The same levels as the trader resets and obeys them.
        c.validate("TradeTV", cfg("TVSpec", {"ASPECTS": tlaset({aspect})}, ["TypeOK", "Extremes"]), c.drive("trade"))
        if aspect == "take":
            c.validate("EasingTV", cfg("TVSpec"), c.drive("easing"))
    return run


def easing(c):
    c.model("EasingMC", cfg("Spec", None, ["Ends", "Rises", "Stays", "Slowly", "Quickly", "NearEnds", "Halfway", "Symmetric", "Pythagoras",
                                           "DoubleAngle", "PowersAdd", "RootRight"], ["Arrives"], deadlock=False))
    c.validate("EasingTV", cfg("TVSpec"), c.drive("easing"))


def advice(c):
    c.model("AdviceMC", cfg("Spec", {"LEN": c.n(5, 7)},
                            ["ChangedMeaning", "NeverTwice", "AgeMeaning", "MidMeaning", "PersMeaning"], deadlock=False))
    c.validate("AdviceTV", cfg("TVSpec"), c.drive("advice"))


def composed_tv(c, aspect):
    c.validate("ComposedTV", cfg("TVSpec", {"ASPECTS": tlaset({aspect})}), c.drive("composed"))


def composed(c):
    c.model("ComposedMC", cfg("MCSpec", {"ASPECTS": tlaset({"advice", "mature"}), "LEN": c.n(4, 5)},
                              ["Faithful", "Transparent", "NothingBefore"], deadlock=False))
    composed_tv(c, "advice")


def strategies_mc(c):
    c.model("StrategiesMC", cfg("MCSpec", {"ASPECTS": tlaset({"rule", "mature"}), "LEN": c.n(5, 7)},
                                ["TypeOK", "WhoLiquidates"], ["NeverForgets", "BreakoutWins", "ScreenedExits"],
                                deadlock=False))


def strategies(c):
    strategies_mc(c)
    c.validate("StrategiesTV", cfg("TVSpec", {"ASPECTS": tlaset({"rule"})}), c.drive("strategies"))


def maturity(c):
    strategies_mc(c)
    tv = cfg("TVSpec", {"ASPECTS": tlaset({"mature"})})
    c.validate("StrategiesTV", tv, c.drive("strategies"))
    c.validate("StrategiesTV", tv, c.drive("maturity"))
    composed_tv(c, "mature")


def calendar(c):
    c.model("CalendarMC", cfg("Spec", {"STARTS": c.n("{4, 720, 10940, 47450}", "{4, 720, 10940, 11000, 47450, 120000, 2932000}"),
                                       "SPAN": c.n(90, 800), "IVS": "{1000, 25200000, 86400000, 259200000, 345600001}"},
                              ["DateRight", "DateInverse", "Sandwich", "OnGrid", "Idempotent", "Meet", "Latest",
                               "NothingBetween", "WeekMonth", "Arithmetic"], deadlock=False))
    c.validate("CalendarTV", cfg("TVSpec"), c.drive("calendar"))


def durations(c):
    c.model("DurationsMC", cfg("Spec", {"STARTS": c.n("{0, 9999, 1999999999}", "{0, 1, 9999, 10000, 99999999, 1999999999}"),
                                        "STRIDES": c.n("{1, 7, 60, 10000, 604800}", "{1, 2, 7, 60, 1000, 9999, 10000, 10001, 604800, 1000000}"),
                                        "STEPS": c.n(30, 60), "OFFSETS": "{0, 1, 345, 10007}"},
                               ["Added", "Taken", "Commute", "RemRight", "FloorRight", "CeilRight", "FromRight", "Ordered", "Units"],
                               deadlock=False))
    c.validate("DurationsTV", cfg("TVSpec"), c.drive("durations"))


def rounding(c):
    c.model("RoundingMC", cfg("Spec", {"DENS": c.n("{1, 2, 3, 8, 10}", "{1, 2, 3, 4, 7, 8, 10, 12, 16, 40, 100, 128}"), "TOP": c.n(2, 5),
                                       "XS": c.n("{0, 1, 5}", "{0, 1, 2, 5, 9}")},
                              ["DownRight", "HalfRight", "Loose", "Near", "MeanBetween", "Flat", "Spread", "Ends", "PairsRight",
                               "Years", "Sums", "Keeping", "Mounts"], deadlock=False))
    c.validate("RoundingTV", cfg("TVSpec"), c.drive("rounding"))


def symbols(c):
    c.model("SymbolsMC", cfg("Spec", {"CHARS": "{45, 97, 98}", "LEN": c.n(3, 4)},
                             ["Rejoined", "BasePlain", "InOrder"], ["Stable"], deadlock=False))
    c.validate("SymbolsTV", cfg("TVSpec"), c.drive("symbols"))


def documents(c):
    c.model("DocumentsMC", cfg("Spec", {"EDITS": c.n(1, 2)}, ["Start", "Fixpoint", "OrderFree", "Stranger", "NothingMadeUp", "Silence"],
                               deadlock=False))
    c.validate("DocumentsTV", cfg("TVSpec"), c.drive("documents"))


def text(c):
    c.model("TextMC", cfg("Spec", {"NUMS": c.n("{0, 1, 999, 1000, 61001, 9999, 10000, 90061001, 604800000, 2147483647}",
                                               "{0, 1, 7, 999, 1000, 1001, 59999, 61001, 9999, 10000, 10001, 39999, 90061001, 604800000, 604800001, 2147483647}"),
                                   "DAYS": "{0, 58, 59, 364, 789, 10957, 11016, 47540, 2932896}",
                                   "MSS": "{0, 1, 10, 100, 999, 1000, 43200000, 86399999}"},
                          ["IntervalRoundTrip", "SumOfGroups", "TimeRoundTrip", "AddRight", "MulRight", "MulCommutes",
                           "OrderRight", "ReadBack"]))
    c.validate("TextTV", cfg("TVSpec"), c.drive("text"))


def buffer(c):
    c.model("BufferMC", cfg("MCSpec", {"LEN": c.n(6, 9), "SIZE": 3, "VALS": "{1, 2}"},
                            ["Exact", "Ordered", "Complete", "Prompt"], deadlock=False))
    c.validate("BufferTV", cfg("TVSpec"), c.drive("buffer"))


def spans(what):
    def run(c):
        c.model("SpansMC", cfg("Spec", {"TOP": c.n(6, 8), "MAXN": c.n(3, 4)},
                               ["MergeRight", "GapsRight", "Partition", "PagesRight"], deadlock=False))
        c.validate("SpansTV", cfg("TVSpec"), c.drive("spans", what=what))
    return run


def filters(c):
    c.model("FiltersMC", cfg("Spec", {"TOP": c.n(12, 24)}, ["Never", "Largest", "Idempotent", "Accepted", "ValidStays"],
                             ["MonotoneOK"], deadlock=False))
    c.model("FiltersMC", cfg("Spec", {"TOP": c.n(3, 5)}, ["WideAgrees"], deadlock=False))
    c.validate("FiltersTV", cfg("TVSpec"), c.drive("filters"))


IND = {"ma": {"Sma", "Ema", "Ema2", "Dema", "Smma", "Kama", "Alma"},
       "osc": {"Rsi", "Stoch", "DM", "DI", "DX", "Adx", "Macd"}}


def indicators(what):
    def run(c):
        c.model("IndicatorsMC", cfg("Spec", {"LEN": c.n(5, 7) if what == "ma" else c.n(4, 5), "PRICES": c.n("{1, 2, 5}", "{0, 1, 2, 5}"),
                                             "PERIODS": "{1, 2, 3}", "KINDS": tlaset(IND[what])},
                                    ["Ordered", "InRange", "Tight", "Percent", "FlatAverage", "FlatOscillator", "SmaDirect",
                                     "Mirror", "AllUp", "EmaDirect"], deadlock=False))
        c.validate("IndicatorsTV", cfg("TVSpec"), c.drive("indicators", what=what))
        c.validate("IndicatorsTV", cfg("TVSpec"), c.drive("indicators", what=what, long=1))
        c.model("PreciseMC", cfg("Spec", {"LEN": c.n(4, 6), "PRICES": "{0, 1, 5}", "PERIODS": "{1, 2, 3}"},
                                 ["Agree", "Accepts", "RsiNear"], deadlock=False))
        c.validate("PreciseTV", cfg("TVSpec"), c.drive("indicators", what=what, fine=1))
        c.validate("PreciseTV", cfg("TVSpec"), c.drive("indicators", what=what, fine=1, long=1))
    return run


def genetic(aspect):
    def run(c):
        c.model("GeneticMC", cfg("MCSpec", {"N": 3, "GENS": c.n(1, 2), "HOF": 2, "VALS": "{0, 1}",
                                            "KINDS": c.n("{1, 2, 3, 4, 6, 7, 8}", "1..8")},
                                 ["Size", "Ranked", "Fame", "Numbered", "NeverWorse", "NothingInvented"], ["Finishes"]))
        c.validate("GeneticTV", cfg("TVSpec", {"ASPECTS": tlaset({aspect})}), c.drive("genetic"))
    return run


def replay(c):
    k = {"SEEDS": c.n("0..5", "0..31"), "POP": 3, "GENS": c.n(2, 3), "WORKERS": c.n("1..2", "1..3"), "SHARED": "FALSE"}
    c.model("Replay", cfg("Spec", k, ["Reproducible"], ["Ends"], deadlock=False))
    c.refutes("Replay", cfg("Spec", dict(k, SHARED="TRUE"), ["Reproducible"], deadlock=False), "Reproducible")
    c.validate("ReplayTV", cfg("TVSpec"), c.drive("replay"))


def fitness(c):
    c.model("FitnessMC", cfg("Spec", {"GAINS": c.n("{0, 2, 1000, 100000}", "{0, 1, 2, 1000, 34567, 100000}"),
                                      "LOSSES": c.n("{3, 1200, 20000}", "{1, 3, 1200, 17777, 25000}"),
                                      "NUMS": "{1, 2, 3, 7, 10, 99, 1023, 1024, 1025, 4095, 65535, 65536, 100000, 999983, 2147483, 123456789}"},
                             ["OrderFree", "Monotone", "LossesWeigh", "NothingIsZero", "LogLaw", "TenLaw", "LogRises", "Inverse"],
                             deadlock=False))
    c.validate("FitnessTV", cfg("TVSpec"), c.drive("fitness"))
    c.validate("GeneticTV", cfg("TVSpec", {"ASPECTS": tlaset({"fit"})}), c.drive("genetic"))


def chromosome(aspect):
    def run(c):
        c.model("ChromosomeMC", cfg("Spec", {"TREES": tlaset(c.n(["flat", "nest", "pick", "over"], ["flat", "nest", "pick", "over", "deep"]))},
                                    ["Closed", "Involution", "Symmetric", "MutationLocal", "Partition"], deadlock=False))
        c.validate("ChromosomeTV", cfg("TVSpec", {"ASPECTS": tlaset({aspect})}), c.drive("chromosome"))
    return run


def stats(aspect):
    def run(c):
        c.model("StatsMC", cfg("Spec", {"LEN": 3, "Q0": 9, "MOVES": c.n("{0, 3, 5, 8}", "{0, 1, 3, 4, 5, 8}")},
                               ["Counts", "Balance", "Worst", "MeanBelowMax", "Bounded", "NoLossNoDrawdown", "MarkedRight", "DayByDay"],
                               deadlock=False))
        c.validate("StatsTV", cfg("TVSpec", {"ASPECTS": tlaset({aspect})}), c.drive("stats"))
    return run


def server_mc(c):
    k = {"REQS": "{1, 2}", "NSYM": 1, "IVS": 1, "PAIR": '"slot"', "FAULTS": '{"api"}'}
    safe = ["Own", "NoPartial", "NoInvented", "Alone"]
    c.model("ServerMC", cfg("MSpec", k, safe, ["Answered"] if c.thorough else [], deadlock=False))
    one = dict(k, REQS="{1}", NSYM=2, IVS=c.n(1, 2), FAULTS='{"api", "drop"}')
    c.model("ServerMC", cfg("MSpec", one, safe, ["Answered"], deadlock=False))
    c.refutes("ServerMC", cfg("MSpec", dict(one, IVS=1, PAIR='"arrival"'), ["Own"], deadlock=False), "Own")


def schedules(c, kinds, reqs, k, bad, out, n):
    """Schedules of TLC for requests of the given kinds: all of them, or random ones where there are too many."""
    import json
    p = c.generate("ServerGen", cfg("Spec", {"REQS": "{%s}" % ", ".join(map(str, range(1, reqs + 1))), "K": k,
                                             "BAD": bad, "OUT": out}, ["Emit"], deadlock=False), limit=n,
                   extra=("-simulate", "num=%d" % n, "-depth", "200", "-seed", str(c.seed)) if k > 8 else ())
    plans = []
    for i, line in enumerate(open(p)):
        plans.append(([kinds[(i + q) % len(kinds)] for q in range(reqs)], json.loads(line)))
    return plans


def serve(c, aspect, plans, ncases, **kw):
    kinds = sorted({k for want, _ in plans for k in want})
    tr = server.sessions(c, plans, kinds, ncases * len(kinds), **kw)
    c.validate("ServerTV", cfg("TVSpec", {"ASPECTS": tlaset({aspect})}, ["Settled"]), tr)


def backtests(c):
    server_mc(c)
    serve(c, "result", schedules(c, ["backtest:2:1"], 1, 4, 0, 0, 24)
          + schedules(c, ["backtest:3:1"], 1, 5, 0, 0, c.n(60, 120))
          + schedules(c, ["backtest:0:1"], 1, 2, 0, 0, 2)
          + schedules(c, ["backtest:1:1"], 2, 3, 0, 0, c.n(60, 1260))
          + schedules(c, ["backtest:4:1"], 1, 6, 0, 0, c.n(40, 720))
          + schedules(c, ["backtest:9:1"], 1, 11, 0, 0, c.n(4, 20))
          + schedules(c, ["backtest:36:1"], 1, 38, 0, 0, c.n(6, 30)), c.n(12, 60))


def faults(c):
    server_mc(c)
    serve(c, "fault", schedules(c, ["backtest:2:1", "optimize:1:2"], 1, 4, 2, 0, c.n(100, 264))
          + schedules(c, ["backtest:1:1", "optimize:1:1"], 2, 3, 1, 0, c.n(60, 1500))
          + schedules(c, ["backtest:1:1", "optimize:1:1"], 1, 3, 1, 1, c.n(60, 168))
          + schedules(c, ["backtest:24:1", "optimize:8:3"], 1, 26, 1, 0, c.n(8, 40)), c.n(6, 20), probe=True)


def optimisations(c):
    c.model("ListingMC", cfg("Spec", {"GENS": c.n(4, 5), "FAME": 2, "HIGH": 2},
                             ["Exactly", "Meaning", "FirstShown", "Increasing", "BestShown"], deadlock=False))
    serve(c, "list", schedules(c, ["optimize:2:1"], 1, 4, 0, 0, c.n(24, 24))
          + schedules(c, ["optimize:2:2"], 1, 6, 0, 0, c.n(60, 720))
          + schedules(c, ["optimize:3:1"], 1, 5, 0, 0, c.n(40, 120))
          + schedules(c, ["optimize:1:1"], 2, 3, 0, 0, c.n(20, 400))
          + schedules(c, ["optimize:11:3"], 1, 35, 0, 0, c.n(4, 20)), c.n(24, 100), offer=True)


def interface(c):
    k = {"PAGES": c.n("{1}", "{1, 2}"), "STYLE": '"permissive"'}
    c.model("InterfaceMC", cfg("Spec", k, ["Open", "Only", "Told"], ["AllRead"], deadlock=False))
    for style in ("bare", "late"):
        c.refutes("InterfaceMC", cfg("Spec", dict(k, STYLE='"%s"' % style), ["Open"], deadlock=False), "Open")
    c.refutes("InterfaceMC", cfg("Spec", {"PAGES": "{1, 2}", "STYLE": '"one"'}, ["Open"], deadlock=False), "Open")
    c.validate("InterfaceTV", cfg("TVSpec", None, ["Settled"]), server.pages(c, c.n(120, 1500)))


def client_calls(c):
    import json
    k = {"REQS": c.n("{1, 2, 3}", "{1, 2, 3, 4}"), "SHARE": '"own"', "KINDS": '{"ok", "api", "drop"}'}
    c.model("ClientMC", cfg("MSpec", k, ["Own", "NoInvented", "Told"], ["AllReturn"]))
    c.refutes("ClientMC", cfg("MSpec", dict(k, SHARE='"fifo"'), ["Own"]), "Own")
    plans = []
    for reqs, bad, n in ((1, 1, 40), (2, 2, c.n(80, 400)), (3, 2, c.n(150, 1500)), (5, 0, c.n(60, 900))):
        p = c.generate("ServerGen", cfg("Spec", {"REQS": "{%s}" % ", ".join(map(str, range(1, reqs + 1))), "K": 1,
                                                 "BAD": bad, "OUT": 0}, ["Emit"], deadlock=False), limit=n)
        lines = [json.loads(x) for x in open(p)]
        plans += [lines[i % len(lines)] for i in range(n)]
    c.validate("ClientTV", cfg("TVSpec", None, ["Settled"]), client.sessions(c, plans))


CHECKS = {
    "C01": {"run": client_calls},
    "H01": {"run": backtests, "axum": True},
    "H02": {"run": faults, "axum": True},
    "H03": {"run": optimisations, "axum": True},
    "H04": {"run": interface, "axum": True},
    "T01": {"run": trade({"life"})},
    "T02": {"run": trade({"entry"})},
    "T03": {"run": trade({"exit"})},
    "T04": {"run": trade({"long"})},
    "T05": {"run": trade({"short"})},
    "T06": {"run": trade({"size"})},
    "T07": {"run": causal},
    "E01": {"run": exits("stop")},
    "E02": {"run": exits("take")},
    "E03": {"run": easing},
    "A01": {"run": advice},
    "A02": {"run": composed},
    "A03": {"run": strategies},
    "A04": {"run": maturity},
    "I01": {"run": indicators("ma")},
    "I02": {"run": indicators("osc")},
    "B01": {"run": buffer},
    "P01": {"run": calendar},
    "P02": {"run": text},
    "P03": {"run": durations},
    "M01": {"run": rounding},
    "M02": {"run": symbols},
    "J01": {"run": documents},
    "U01": {"run": spans("merge")},
    "U02": {"run": spans("page")},
    "U03": {"run": filters},
    "S01": {"run": stats("core")},
    "S02": {"run": stats("opt")},
    "G01": {"run": replay},
    "G07": {"run": fitness},
    "G02": {"run": genetic("life")},
    "G03": {"run": genetic("ins")},
    "G04": {"run": chromosome("valid")},
    "G05": {"run": chromosome("gene")},
    "G06": {"run": genetic("sel")},
    "G08": {"run": genetic("vary")},
}
