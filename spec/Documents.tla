----------------------------- MODULE Documents -----------------------------
(* What JSON documents of parameters, contexts, market data and results mean. *)
(* A document is [j, v, f, fit, k, x]: j is "u" (natural number), "i" (other  *)
(* integer), "f" (real), "s" (text), "b" (truth), "z" (null), "a" (array x),  *)
(* "o" (object with keys k and values x); v is a scalar's text, f a number's  *)
(* value in scientific notation, fit = 1 if it needs at most 32 bits.         *)
EXTENDS Integers, Sequences, FiniteSets
Doc(j, v) == [j |-> j, v |-> v, f |-> "", fit |-> 0, k |-> <<>>, x |-> <<>>]
Null == Doc("z", "")
Text(v) == Doc("s", v)
Nat64(v) == [Doc("u", v) EXCEPT !.f = v, !.fit = 1]
Arr(x) == [Doc("a", "") EXCEPT !.x = x]
Obj(k, x) == [Doc("o", "") EXCEPT !.k = k, !.x = x]
Has(d, key) == \E i \in DOMAIN d.k : d.k[i] = key
At(d, key) == d.x[CHOOSE i \in DOMAIN d.k : d.k[i] = key]
\* ---------------------------------------------------------------- schemas
Real == [n |-> "real"]
U32 == [n |-> "u32"]
U64 == [n |-> "u64"]
Truth == [n |-> "truth"]
Str == [n |-> "str"]
Ms == [n |-> "ms"]
Time == [n |-> "time"]
Word(s) == [n |-> "word", s |-> s]
Opt(S) == [n |-> "opt", of |-> S]
List(S) == [n |-> "list", of |-> S]
Tuple(k, S) == [n |-> "tuple", len |-> k, of |-> S]
Map(S) == [n |-> "map", of |-> S]
\* fs: <<name, schema, "must" or "may">>; what may be missing has a default, and so has an option.
Fields(fs) == [n |-> "obj", fs |-> fs]
Tagged(vs) == [n |-> "tag", vs |-> vs]         \* vs: <<tag, Fields>>
Must(name, S) == <<name, S, "must">>
May(name, S) == <<name, S, "may">>
\* Texts for intervals and times are P02's business; these stand for all of them.
MsTexts == {<<"1m", "60000">>, <<"1h", "3600000">>, <<"1d", "86400000">>, <<"1d12h", "129600000">>, <<"1w", "604800000">>}
TimeTexts == {<<"2019-01-01", "1546300800000">>, <<"2020-02-29T12:00:00Z", "1582977600000">>, <<"1970-01-01T00:00:00+00:00", "0">>}
Means(T, v) == (CHOOSE p \in T : p[1] = v)[2]
Tags(S) == {S.vs[i][1] : i \in DOMAIN S.vs}
Content(S, t) == S.vs[CHOOSE i \in DOMAIN S.vs : S.vs[i][1] = t][2]
\* ------------------------------------------------- which documents are read
RECURSIVE Reads(_, _)
Reads(S, d) ==
  CASE S.n = "real" -> d.j \in {"u", "i", "f"}
    [] S.n = "u32" -> d.j = "u" /\ d.fit = 1
    [] S.n = "u64" -> d.j = "u"
    [] S.n = "truth" -> d.j = "b"
    [] S.n = "str" -> d.j = "s"
    [] S.n = "ms" -> d.j = "u" \/ (d.j = "s" /\ \E p \in MsTexts : p[1] = d.v)
    [] S.n = "time" -> d.j = "u" \/ (d.j = "s" /\ \E p \in TimeTexts : p[1] = d.v)
    [] S.n = "word" -> d.j = "s" /\ d.v \in S.s
    [] S.n = "opt" -> d.j = "z" \/ Reads(S.of, d)
    [] S.n = "list" -> d.j = "a" /\ \A i \in DOMAIN d.x : Reads(S.of, d.x[i])
    [] S.n = "tuple" -> d.j = "a" /\ Len(d.x) = S.len /\ \A i \in DOMAIN d.x : Reads(S.of, d.x[i])
    [] S.n = "map" -> d.j = "o" /\ \A i \in DOMAIN d.x : Reads(S.of, d.x[i])
    [] S.n = "obj" -> /\ d.j = "o"
                      /\ \A i \in DOMAIN S.fs : LET f == S.fs[i] IN
                           IF Has(d, f[1]) THEN Reads(f[2], At(d, f[1])) ELSE f[3] = "may" \/ f[2].n = "opt"
    [] S.n = "tag" -> /\ d.j = "o" /\ Has(d, "type")
                      /\ LET t == At(d, "type") IN t.j = "s" /\ t.v \in Tags(S) /\ Reads(Content(S, t.v), d)
\* --------------------------------------------------- what they are read as
RECURSIVE Default(_)
Default(S) ==
  CASE S.n = "opt" -> Null
    [] S.n = "u32" -> Nat64("0")
    [] S.n = "list" -> Arr(<<>>)
    [] S.n = "obj" -> Obj([i \in DOMAIN S.fs |-> S.fs[i][1]], [i \in DOMAIN S.fs |-> Default(S.fs[i][2])])
    [] S.n = "tag" -> Obj(<<"type">>, <<Text("None")>>)
RECURSIVE Canon(_, _)
Canon(S, d) ==
  CASE S.n = "real" -> [d EXCEPT !.j = "f", !.v = ""]
    [] S.n = "ms" -> IF d.j = "s" THEN Nat64(Means(MsTexts, d.v)) ELSE d
    [] S.n = "time" -> IF d.j = "s" THEN Nat64(Means(TimeTexts, d.v)) ELSE d
    [] S.n = "opt" -> IF d.j = "z" THEN d ELSE Canon(S.of, d)
    [] S.n \in {"list", "tuple", "map"} -> [d EXCEPT !.x = [i \in DOMAIN d.x |-> Canon(S.of, d.x[i])]]
    [] S.n = "obj" -> Obj([i \in DOMAIN S.fs |-> S.fs[i][1]],
                          [i \in DOMAIN S.fs |-> LET f == S.fs[i] IN
                             IF Has(d, f[1]) THEN Canon(f[2], At(d, f[1])) ELSE Default(f[2])])
    [] S.n = "tag" -> LET t == At(d, "type") c == Canon(Content(S, t.v), d) IN Obj(<<"type">> \o c.k, <<t>> \o c.x)
    [] OTHER -> d
\* Is o the canonical document c, whatever the order of its keys?
RECURSIVE Alike(_, _)
Alike(o, c) ==
  CASE c.j = "f" -> o.j \in {"u", "i", "f"} /\ o.f = c.f
    [] c.j = "a" -> o.j = "a" /\ Len(o.x) = Len(c.x) /\ \A i \in DOMAIN c.x : Alike(o.x[i], c.x[i])
    [] c.j = "o" -> /\ o.j = "o" /\ Len(o.k) = Len(c.k) /\ \A i \in DOMAIN c.k : Has(o, c.k[i]) /\ Alike(At(o, c.k[i]), c.x[i])
    [] OTHER -> o.j = c.j /\ o.v = c.v
\* ------------------------------------------------------------- the system's
MA == LET p == <<Must("period", U32)>> IN
  Tagged(<< <<"Alma", Fields(<<Must("offset", Real), Must("period", U32), Must("sigma", Opt(U32))>>)>>,
            <<"Dema", Fields(p)>>, <<"Ema", Fields(p \o <<May("smoothing", Opt(Real))>>)>>, <<"Ema2", Fields(p)>>,
            <<"Kama", Fields(p)>>, <<"Sma", Fields(p)>>, <<"Smma", Fields(p)>> >>)
\* p: how a parameter appears (as itself in parameters, as an option in contexts); c: how a nested set appears.
Own(name, S) == Must(name, S)
Pin(name, S) == May(name, Opt(S))
Part(ctx, name, S) == IF ctx THEN Pin(name, S) ELSE Own(name, S)
Nest(ctx, name, S) == IF ctx THEN May(name, S) ELSE Must(name, S)
Choice(ctx, vs) == Tagged(IF ctx THEN << <<"None", Fields(<<>>)>> >> \o vs ELSE vs)
DoubleMA(c) == Fields(<<Part(c, "mas", Tuple(2, MA))>>)
Stoch(c) == Fields(<<Part(c, "k_period", U32), Part(c, "k_sma_period", U32), Part(c, "d_sma_period", U32),
                     Part(c, "up_threshold", Real), Part(c, "down_threshold", Real)>>)
Rsi(c) == Fields(<<Part(c, "period", U32), Part(c, "up_threshold", Real), Part(c, "down_threshold", Real)>>)
Plain(c) == << <<"DoubleMA", DoubleMA(c)>>,
  <<"DoubleMA2", Fields(<<Part(c, "neg_threshold", Real), Part(c, "pos_threshold", Real), Part(c, "mas", Tuple(2, MA))>>)>>,
  <<"DoubleMAStoch", Fields(<<Nest(c, "double_ma", DoubleMA(c)), Nest(c, "stoch", Stoch(c))>>)>>,
  <<"FourWeekRule", Fields(<<Part(c, "period", U32), Part(c, "ma", MA)>>)>>,
  <<"Macd", Fields(<<Part(c, "periods", Tuple(2, U32)), Part(c, "signal_period", U32)>>)>>,
  <<"SingleMA", Fields(<<Part(c, "ma", MA)>>)>>,
  <<"TripleMA", Fields(<<Part(c, "mas", Tuple(3, MA))>>)>> >>
Policy == Word({"Current", "Previous", "Ignore"})
Strategy(c) == Choice(c, Plain(c) \o <<
  <<"SigOsc", Fields(<<Nest(c, "sig", Choice(c, Plain(c))), Nest(c, "osc", Choice(c, << <<"Rsi", Rsi(c)>>, <<"Stoch", Stoch(c)>> >>)),
                       Part(c, "osc_filter", Word({"Enforce", "Prevent"})), Part(c, "persistence", U32), Part(c, "mid_trend_policy", Policy)>>)>>,
  <<"Sig", Fields(<<Nest(c, "sig", Choice(c, Plain(c))), IF c THEN Pin("persistence", U32) ELSE May("persistence", U32),
                    Part(c, "mid_trend_policy", Policy), IF c THEN Pin("buffer_interval", Opt(Ms)) ELSE May("buffer_interval", Opt(Ms))>>)>> >>)
UpDown(c) == Fields(<<Part(c, "up_threshold", Real), Part(c, "down_threshold", Real)>>)
StopLoss(c) == Choice(c, <<
  <<"BasicPlusTrailing", Fields(<<Nest(c, "basic", UpDown(c)), Nest(c, "trailing", UpDown(c))>>)>>, <<"Basic", UpDown(c)>>,
  <<"Legacy", Fields(<<Part(c, "threshold", Real), Part(c, "trail", Truth)>>)>>, <<"Noop", Fields(<<>>)>>, <<"Trailing", UpDown(c)>> >>)
Easings == {"Linear"} \cup {"QuadIn", "QuadOut", "QuadInout", "CubicIn", "CubicOut", "CubicInout", "QuartIn", "QuartOut", "QuartInout",
            "QuintIn", "QuintOut", "QuintInout", "SineIn", "SineOut", "SineInout", "CircIn", "CircOut", "CircInout", "ExpoIn", "ExpoOut",
            "ExpoInout", "ElasticIn", "ElasticOut", "ElasticInout", "BackIn", "BackOut", "BackInout", "BounceIn", "BounceOut", "BounceInout"}
TakeProfit(c) == Choice(c, <<
  <<"Basic", UpDown(c)>>, <<"Legacy", Fields(<<Part(c, "threshold", Real)>>)>>, <<"Noop", Fields(<<>>)>>,
  <<"Trending", Fields(<<Part(c, "up_thresholds", Tuple(2, Real)), Part(c, "down_thresholds", Tuple(2, Real)), Part(c, "period", U32),
                         Part(c, "lock_threshold", Truth), Part(c, "easing", Word(Easings))>>)>> >>)
Trading(c) == Fields(<<Nest(c, "strategy", Strategy(c)), Nest(c, "trader", Fields(IF c THEN <<Must("intervals", List(Ms))>> ELSE <<Must("interval", Ms)>>)),
                       Nest(c, "stop_loss", StopLoss(c)), Nest(c, "take_profit", TakeProfit(c))>>)
Candle == Fields(<<Must("time", Time), Must("open", Real), Must("high", Real), Must("low", Real), Must("close", Real), Must("volume", Real)>>)
Fees == Fields(<<Must("maker", Real), Must("taker", Real)>>)
Steps == Fields(<<Must("min", Real), Must("max", Real), Must("step", Real)>>)
Filters == Fields(<<Must("price", Steps), Must("size", Steps), Must("base_precision", U32), Must("quote_precision", U32)>>)
Borrow == Fields(<<Must("interest_interval", U64), Must("interest_rate", Real), Must("limit", Real)>>)
Exchange == Fields(<<Must("assets", Map(Fields(<<Must("precision", U32)>>))), Must("fees", Map(Fees)), Must("filters", Map(Filters)),
                     Must("borrow_info", Map(Map(Borrow)))>>)
Fill == Fields(<<Must("price", Real), Must("size", Real), Must("quote", Real), Must("fee", Real)>>)
Reason == Word({"Strategy", "StopLoss", "TakeProfit", "Cancelled"})
Ends == <<Must("open_time", Time), Must("open_fills", Tuple(1, Fill)), Must("close_time", Time), Must("close_fills", Tuple(1, Fill)),
          Must("close_reason", Reason)>>
Position == Tagged(<< <<"Long", Fields(Ends)>>, <<"Short", Fields(Ends \o <<Must("collateral", Real), Must("borrowed", Real)>>)>> >>)
Summary == Fields(<<Must("positions", List(Position)), Must("start", Time), Must("end", Time), Must("quote", Real)>>)
Core == Fields(<<Must("start", Time), Must("end", Time), Must("duration", Ms), Must("cost", Real), Must("gain", Real), Must("profit", Real),
                 Must("roi", Real), Must("annualized_roi", Real), Must("mean_position_profit", Real), Must("mean_position_duration", Ms),
                 Must("max_drawdown", Real), Must("mean_drawdown", Real), Must("return_over_max_drawdown", Real), Must("num_positions", U32),
                 Must("num_positions_in_profit", U32), Must("num_positions_in_loss", U32), Must("num_stop_losses", U32), Must("num_take_profits", U32)>>)
Account == Fields(<<Must("type", Word({"Long", "Short"})), Must("open_time", Time), Must("close_time", Time), Must("cost", Real), Must("gain", Real),
                    Must("profit", Real), Must("duration", Ms), Must("roi", Real), Must("annualized_roi", Real), Must("close_reason", Reason)>>)
Root(t) == CASE t = "trading" -> Trading(FALSE) [] t = "context" -> Trading(TRUE) [] t = "candles" -> List(Opt(Candle))
             [] t = "exchange" -> Exchange [] t = "summary" -> Summary [] t = "core" -> Core [] t = "account" -> Account
             [] t = "statistic" -> Word({"Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"})
             [] t = "aggregation" -> Word({"Linear", "Log10", "Log10Factored"})
             [] t = "candle_type" -> Word({"regular", "heikin-ashi"})
=============================================================================
