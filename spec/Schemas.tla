------------------------------ MODULE Schemas ------------------------------
(* The parameter types of the system (reals in millionths) and of the driver. *)
EXTENDS Chromosome
M == 1000000
DoubleMA == Struct(<<>>, << <<"mas", MAs(2, 300)>> >>)
DoubleMA2 == Struct(<<>>, << <<"neg_threshold", Num(-M, -100000)>>, <<"pos_threshold", Num(100000, M)>>, <<"mas", MAs(2, 200)>> >>)
Stoch == Struct(<<>>, << <<"k_period", Num(1, 200)>>, <<"k_sma_period", Num(1, 200)>>, <<"d_sma_period", Num(1, 200)>>,
                         <<"up_threshold", Num(50 * M, 100 * M)>>, <<"down_threshold", Num(0, 50 * M)>> >>)
DoubleMAStoch == Struct(<< <<"double_ma", DoubleMA>>, <<"stoch", Stoch>> >>, <<>>)
FourWeekRule == Struct(<<>>, << <<"period", Num(2, 299)>>, <<"ma", MA(2, 299)>> >>)
Macd == Struct(<<>>, << <<"periods", Ints(2, 1, 100)>>, <<"signal_period", Num(1, 99)>> >>)
SingleMA == Struct(<<>>, << <<"ma", MA(1, 299)>> >>)
TripleMA == Struct(<<>>, << <<"mas", MAs(3, 300)>> >>)
Rsi == Struct(<<>>, << <<"period", Num(1, 100)>>, <<"up_threshold", Num(50 * M, 100 * M)>>, <<"down_threshold", Num(0, 50 * M)>> >>)
Plain == << <<"DoubleMA", DoubleMA>>, <<"DoubleMA2", DoubleMA2>>, <<"DoubleMAStoch", DoubleMAStoch>>,
            <<"FourWeekRule", FourWeekRule>>, <<"Macd", Macd>>, <<"SingleMA", SingleMA>>, <<"TripleMA", TripleMA>> >>
Signal == Enum(Plain)
Osc == Enum(<< <<"Rsi", Rsi>>, <<"Stoch", Stoch>> >>)
Policy == Word({"Current", "Previous", "Ignore"})
SigOsc == Struct(<< <<"sig", Signal>>, <<"osc", Osc>> >>,
                 << <<"osc_filter", Word({"Enforce", "Prevent"})>>, <<"persistence", Num(0, 9)>>, <<"mid_trend_policy", Policy>> >>)
Sig == Struct(<< <<"sig", Signal>> >>,
              << <<"persistence", Num(0, 9)>>, <<"mid_trend_policy", Policy>>, <<"buffer_interval", Absent>> >>)
Strategy == Enum(Plain \o << <<"SigOsc", SigOsc>>, <<"Sig", Sig>> >>)
UpDown(hi) == << <<"up_threshold", Num(1000, hi)>>, <<"down_threshold", Num(1000, hi)>> >>
Noop == Struct(<<>>, <<>>)
StopLoss == Enum(<< <<"BasicPlusTrailing", Struct(<< <<"basic", Struct(<<>>, UpDown(M))>>, <<"trailing", Struct(<<>>, UpDown(M))>> >>, <<>>)>>,
                    <<"Basic", Struct(<<>>, UpDown(M))>>,
                    <<"Legacy", Struct(<<>>, << <<"threshold", ZeroOr(10000, M)>>, <<"trail", Flag>> >>)>>,
                    <<"Noop", Noop>>, <<"Trailing", Struct(<<>>, UpDown(M))>> >>)
Easings == {"Linear"} \cup {"QuadIn", "QuadOut", "QuadInout", "CubicIn", "CubicOut", "CubicInout", "QuartIn", "QuartOut", "QuartInout",
            "QuintIn", "QuintOut", "QuintInout", "SineIn", "SineOut", "SineInout", "CircIn", "CircOut", "CircInout", "ExpoIn", "ExpoOut",
            "ExpoInout", "ElasticIn", "ElasticOut", "ElasticInout", "BackIn", "BackOut", "BackInout", "BounceIn", "BounceOut", "BounceInout"}
Trending == Struct(<<>>, << <<"up_thresholds", Ints(2, 1000, 10 * M)>>, <<"down_thresholds", Ints(2, 1000, 10 * M)>>,
                            <<"period", Num(1, 199)>>, <<"lock_threshold", Flag>>, <<"easing", Word(Easings)>> >>)
TakeProfit == Enum(<< <<"Basic", Struct(<<>>, UpDown(10 * M))>>, <<"Legacy", Struct(<<>>, << <<"threshold", ZeroOr(10000, 10 * M)>> >>)>>,
                      <<"Noop", Noop>>, <<"Trending", Trending>> >>)
Trading == Struct(<< <<"strategy", Strategy>>, <<"trader", Trader>>, <<"stop_loss", StopLoss>>, <<"take_profit", TakeProfit>> >>, <<>>)
\* Types of the driver: every shape the derive macros support.
Pair == Struct(<<>>, << <<"a", Num(0, 9)>>, <<"b", Num(10, 19)>> >>)
Single == Struct(<<>>, << <<"z", Num(20, 29)>> >>)
Nested == Struct(<< <<"left", Pair>>, <<"none", Noop>>, <<"right", Pair>> >>,
                 << <<"c", Num(30, 39)>>, <<"d", Num(40, 49)>>, <<"e", Num(50, 59)>> >>)
Choice == Enum(<< <<"Single", Single>>, <<"Empty", Noop>>, <<"Nested", Nested>>, <<"Pair", Pair>> >>)
Deep == Struct(<< <<"first", Choice>>, <<"pair", Pair>>, <<"second", Choice>> >>, << <<"f", Num(60, 69)>> >>)
Schema(t) == CASE t = "trading" -> Trading [] t = "strategy" -> Strategy [] t = "sig" -> Signal [] t = "osc" -> Osc
               [] t = "stop_loss" -> StopLoss [] t = "take_profit" -> TakeProfit
               [] t = "nested" -> Nested [] t = "choice" -> Choice [] t = "deep" -> Deep
=============================================================================
