#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                  "observe_at": observe or [], "hook_needed": None}})

TR = ["juno/src/trading/traders.rs", "juno/src/trading/mod.rs"]
prop("T01", "Positions never overlap, run forward in time and are all closed",
 "At any moment a backtest holds at most one position; positions are reported in chronological order, each is opened and closed at the end of a candle at that candle's closing price, and a position is never closed on the candle that opened it except by the end of the data. Whatever is still open when the data ends is closed there, at the last candle's close, and marked as cancelled; nothing else is marked so.",
 ["inputs", "histories", "configurations"], "every candle history (any length, gaps, flat or volatile prices), every strategy, stop loss, take profit and long/short permission",
 "No test runs the trading loop at all with assertions on positions; the order of open/close events depends on whole histories.",
 TR, [("tick / trade loop", "juno/src/trading/traders.rs: trade, tick"), ("open position slot", "State.open_position")],
 ["trade() result for every prefix of the history"], [("open position", "at most one long or short", "traders.rs State.open_position")])
prop("T02", "Positions open only on a fresh permitted signal",
 "A long (short) position is opened exactly when the strategy's advice has just changed to long (short), no position is open after this candle's exits, and that side is permitted. In particular, after a stop loss or take profit the trader stays out until the advice changes again, and an advice held over several candles never opens twice.",
 ["inputs", "histories", "configurations"], "every advice history and price history, for each combination of permitted sides",
 "Requires sequences: advice, exit by threshold, same advice again. No test covers a multi-step sequence.",
 TR + ["juno/src/utils/changed.rs"], [("change filter on advice", "juno/src/utils/changed.rs: Changed::update"), ("entry branch", "traders.rs tick")],
 ["trade() result for every prefix, next to the strategy's own advice on the same candles"])
prop("T03", "Positions close exactly when required, with the right reason",
 "An open position is closed on the first candle on which the advice changes to the opposite side or to liquidate (reason: strategy), else its stop loss is hit (reason: stop loss), else its take profit is hit (reason: take profit), in that order of precedence; on any other candle it stays open.",
 ["inputs", "histories", "configurations"], "every price and advice history, every stop-loss and take-profit kind and threshold",
 "The precedence only shows when two exits coincide; the repository has no test of exits in the trading loop.",
 TR + ["juno/src/stop_loss/", "juno/src/take_profit/"], [("exit branches", "traders.rs tick"), ("exit signals", "stop_loss/*.rs, take_profit/*.rs")],
 ["close_time and close_reason of positions from trade()"])
prop("T04", "Long trades account for every unit of money",
 "A long buys a size, pays price times size rounded down to quote precision, and loses the taker fee (in base, rounded half up to base precision) from the bought size; closing sells what is left after rounding down to the size filter, receiving price times size rounded down minus the taker fee rounded half up in quote precision. Cash after each trade is cash before, minus what was paid, plus what was received, so the reported profits add up to the change in cash.",
 ["inputs", "histories", "configurations"], "all prices, fees, precisions, filters and sequences of trades",
 "Accounting errors show only for particular combinations of rounding, filters and repeated trades; no test checks fills.",
 TR + ["juno/src/math.rs"], [("open/close long", "traders.rs try_open_long_position, close_long_position"), ("rounding", "juno/src/math.rs round_down, round_half_up")],
 ["fills and profit of long positions"])
prop("T05", "Short trades account for borrowing, interest and fees",
 "A short puts up all cash as collateral, borrows (multiplier - 1) times the size that cash could buy but never more than the borrow limit, and sells it for price times size rounded down minus the taker fee. Closing buys back the borrowed amount plus interest for every started interest interval plus the taker fee on both, each rounded half up to base precision; profit is proceeds minus buy-back cost.",
 ["inputs", "histories", "configurations"], "all prices, holding times, interest intervals and rates, borrow limits, multipliers, fees and precisions",
 "Interest depends on the holding time crossing interval boundaries and the limit on the size of earlier profits; no test opens a short.",
 TR + ["juno/src/math.rs"], [("open/close short", "traders.rs try_open_short_position, close_short_position"), ("started intervals", "math.rs ceil_multiple")],
 ["collateral, borrowed, fills and profit of short positions"])
prop("T06", "Order sizes respect exchange filters and available funds",
 "Every opened size lies on the exchange's size grid between its minimum and maximum, costs no more than the cash available, and is the largest such size. When the available cash cannot buy the minimum size at the moment of an entry, no position is opened and the backtest stops trading for good.",
 ["inputs", "histories", "configurations"], "all prices, balances and filter settings (including zero meaning unlimited)",
 "Filters matter only at the edge of affordability, which is reached after losing trades; filters have no test.",
 TR + ["juno/src/filters.rs"], [("size rounding", "juno/src/filters.rs Size::round_down"), ("error ends the loop", "traders.rs trade: break on Err")],
 ["open fills; absence of positions after an unaffordable entry"])
prop("T07", "Backtests are deterministic and never look ahead",
 "Running the same backtest twice gives identical results, and every position closed within the first k candles is exactly the same whatever candles follow. Extending the history only ever appends positions (and re-closes the one that was cut off by the end of data).",
 ["inputs", "histories"], "every history and each of its prefixes and continuations, every strategy and exit setting",
 "Relates pairs of runs (a hyper-property); unit tests look at single runs.",
 TR + ["juno/src/strategies/"], [("single forward pass", "traders.rs trade"), ("state reset per run", "traders.rs State::new")],
 ["trade() on a history, on all its prefixes and on altered continuations"])
prop("E01", "Stop losses trigger exactly at their configured loss",
 "A basic stop loss triggers for a long (short) when the close has fallen (risen) at least its threshold below (above) the close at entry; a trailing one measures from the best close since entry; the combined one triggers when either does; the legacy one is trailing or basic by its flag and off when its threshold is 0; the disabled one never triggers. What happened before the entry never matters.",
 ["inputs", "histories", "configurations"], "all close-price histories with entries at arbitrary points, all thresholds",
 "Trailing state depends on the whole path since an entry and must be reset by the next; no test covers stop losses.",
 ["juno/src/stop_loss/"], [("hit tests and reset on entry", "stop_loss/{basic,trailing,basic_plus_trailing,legacy,noop}.rs")],
 ["upside_hit/downside_hit after update/clear sequences; close reasons in trade()"])
prop("E02", "Take profits trigger exactly at their configured gain",
 "A basic take profit triggers for a long (short) when the close has risen (fallen) at least its threshold from the close at entry; the legacy one likewise, and never when its threshold is 0; the disabled one never triggers. The trending one uses a threshold interpolated between its two bounds by the current trend strength, fixed at entry when locked and re-computed on every candle otherwise.",
 ["inputs", "histories", "configurations"], "all candle histories with entries at arbitrary points, all thresholds, easings and lock settings",
 "Needs histories where trend strength changes between entry and exit; take profits have no test.",
 ["juno/src/take_profit/", "juno/src/easing.rs"], [("hit tests and reset on entry", "take_profit/{basic,legacy,trending,noop}.rs"), ("interpolation", "math.rs lerp; easing.rs tween")],
 ["upside_hit/downside_hit after update/clear sequences"])
prop("A01", "Advice filters follow their contract for every advice history",
 "The change filter passes an advice on only when it differs from the last passed one and is not none, and reports the prevailing advice and how long it has prevailed; the mid-trend filter, when set to ignore, stays silent until the advice first changes; the persistence filter passes an advice on only after it has been repeated for the configured number of further candles. Two filtered advices combine to none if either is none, to the common value if equal, else to liquidate.",
 ["inputs", "histories", "configurations"], "all sequences of advice values, all filter settings",
 "Filters are state machines over unbounded histories; the repository tests none of them directly.",
 ["juno/src/utils/changed.rs", "juno/src/utils/mid_trend.rs", "juno/src/utils/persistence.rs", "juno/src/utils/mod.rs"],
 [("filters", "utils/{changed,mid_trend,persistence}.rs"), ("combination", "utils/mod.rs combine")], ["filter outputs"])
prop("A02", "Composed strategies apply oscillator, trend and persistence rules",
 "A composed strategy updates its inner signal on every (buffered) candle and, once its inner parts are mature, advises the combination of its mid-trend and persistence filters fed with the inner advice, first screened by the oscillator: in enforcing mode a long needs an oversold and a short an overbought oscillator, in preventing mode a long is refused when overbought and a short when oversold, a refused advice turning into liquidate.",
 ["inputs", "histories", "configurations"], "all candle histories, inner signals, oscillators, filter modes, persistence levels and policies, with and without candle buffering",
 "The existing strategy tests sample a single expected value after one data file; the interplay is history dependent.",
 ["juno/src/strategies/sig.rs", "juno/src/strategies/sig_osc.rs", "juno/src/utils/"],
 [("pipelines", "strategies/sig.rs, strategies/sig_osc.rs update")], ["advice next to that of the inner parts run on the same candles"])
prop("A03", "Strategies decide according to their rule on every candle",
 "Given the values of their indicators, each strategy's advice follows its published rule: moving-average crossovers (single, double, thresholded double, triple), MACD against its signal line, breakout of the four-week price channel with exit on crossing its average, and the stochastic-screened crossover with its exits; otherwise the previous advice is kept.",
 ["inputs", "histories", "configurations"], "all candle histories and parameters",
 "Decisions are sticky, so they depend on the history of indicator values; tests sample one data file each and not all strategies.",
 ["juno/src/strategies/"], [("decision rules", "strategies/{single_ma,double_ma,double_ma_2,triple_ma,macd,four_week_rule,double_ma_stoch,rsi,stoch}.rs")],
 ["advice after each candle next to indicator values from independent instances"])
prop("A04", "Nothing is reported before maturity, and maturity comes on schedule",
 "Every indicator and strategy becomes mature exactly after the number of updates it announces and stays mature. No strategy gives any advice before the indicators it decides on are mature.",
 ["inputs", "histories", "configurations"], "all parameters and all candle histories",
 "Holds for all parameter combinations; tests check values on one file with one parameter set.",
 ["juno/src/strategies/", "juno/src/indicators/"], [("maturity counters", "maturity()/mature() of every indicator and strategy")],
 ["mature flags and advice after each update"])
prop("I01", "Moving averages match their mathematical definition",
 "Simple, exponential (both seedings), double exponential, smoothed, Kaufman adaptive and Arnaud Legoux moving averages equal their textbook recurrence on every price sequence once mature, and always lie within the range of the prices seen where the definition implies it (all but the double exponential). They are always finite.",
 ["inputs", "histories", "configurations"], "all price sequences (including flat ones) and periods",
 "Tests compare one recorded sequence per indicator with one parameter set.",
 ["juno/src/indicators/"], [("recurrences", "indicators/{sma,ema,ema2,dema,smma,kama,alma}.rs")], ["value() after each update"])
prop("I02", "Oscillators and trend indicators match their definition and stay bounded",
 "RSI, stochastic, directional movement, DI, DX, ADX and MACD equal their textbook recurrence on every price sequence; RSI, stochastic %K and %D, DX and ADX always lie in [0, 100]; all are finite on every input, including completely flat prices, and a flat stretch never prevents later values from being right.",
 ["inputs", "histories", "configurations"], "all high/low/close sequences with low <= close <= high, including degenerate flat ones, and all periods",
 "Division by a zero range only happens on degenerate stretches that recorded data does not contain.",
 ["juno/src/indicators/"], [("recurrences", "indicators/{rsi,stoch,dm,di,dx,adx,macd}.rs")], ["indicator values after each update"])
prop("B01", "Buffered candles aggregate exactly their calendar bucket",
 "When candles are buffered to a larger interval, each emitted candle starts at its bucket's boundary and has the first open, highest high, lowest low, last close and total volume of precisely the input candles that fall into that bucket; it is emitted on the last candle of the bucket, or when a later bucket's candle arrives, and never mixes buckets. Without a larger interval candles pass through unchanged.",
 ["inputs", "histories", "configurations"], "all candle sequences with arbitrary gaps, all intervals including weeks and calendar months",
 "Tests cover a handful of three-candle sequences with plain intervals; gaps at bucket boundaries and calendar intervals need histories.",
 ["juno/src/utils/buffered_candle.rs"], [("bucket state machine", "utils/buffered_candle.rs BufferedCandle::buffer")], ["emitted candles"])
prop("P01", "Rounding a time to an interval lands on the right calendar boundary",
 "Flooring (ceiling) a time gives the latest (earliest) boundary not after (before) it; boundaries are multiples of the interval, Mondays 00:00 UTC for weeks and first days of calendar months for months. So both are idempotent, floor <= time <= ceil, and they coincide exactly on boundaries.",
 ["inputs"], "all times from 1970 on (weeks: from the first Monday, 1970-01-05, for flooring), all intervals below a week, weeks, and months",
 "Tests check a few dates; leap years, December and exact boundaries are points in a huge input space.",
 ["juno/src/primitives/timestamp.rs", "juno/src/math.rs"], [("floor/ceil", "primitives/timestamp.rs Timestamp::floor, ceil")], ["Timestamp::floor/ceil results"])
prop("P02", "Times and intervals survive being written and read back",
 "Every interval and time printed as text (or JSON) parses back to the same value, interval text denotes the sum of its number-unit groups, and text with an unknown unit or an unrepresentable number is rejected with an error instead of crashing the process.",
 ["inputs"], "all intervals and times; all interval texts built from digit and letter groups",
 "Tests check about ten values; error inputs are not tested.",
 ["juno/src/primitives/interval.rs", "juno/src/primitives/timestamp.rs"], [("Display/FromStr", "primitives/{interval,timestamp}.rs")], ["to_string, from_str, serde"])
prop("U01", "Missing and merged time spans partition the requested range",
 "Merging adjacent spans yields the same covered time with no two touching spans left; the missing spans of a range are exactly the parts of it that no existing span covers, in order, non-empty, disjoint and never outside the range.",
 ["inputs"], "all ranges and all ordered lists of disjoint existing spans, inside, outside or across the range",
 "Two examples are tested.",
 ["juno/src/utils/mod.rs"], [("span algebra", "utils/mod.rs merge_adjacent_spans, generate_missing_spans")], ["returned spans"])
prop("U02", "Paging tiles a range without gaps, overlaps or oversized pages",
 "Splitting a time range into pages covers it exactly once, in order, every page holding at most the page limit of intervals and all but the last exactly that many.",
 ["inputs"], "all aligned ranges, intervals and page limits",
 "Not tested.",
 ["juno/src/utils/mod.rs"], [("paging", "utils/mod.rs page")], ["pages"])
prop("U03", "Price and size filters only produce values the exchange accepts",
 "Rounding a price or size down (up) to a filter yields 0 when below the minimum, else the largest (smallest) multiple of the step not above (below) the value capped at the maximum, with 0 meaning unlimited; rounding is idempotent (where the bounds themselves lie on the step grid) and monotone, and a value is judged valid exactly when it is within bounds and a whole number of steps from the minimum. Step multiples are exact up to the binary representability of the step.",
 ["inputs", "configurations"], "all filter settings and values",
 "Filters have no test.",
 ["juno/src/filters.rs"], [("filters", "filters.rs Price, Size")], ["round_down, round_up, valid"])
prop("G01", "The same seed always reproduces the same optimisation",
 "Two optimisation runs with the same seed, parameters and data give identical generations, chromosomes and fitness values, whatever the number of threads, the process, or the scheduling of evaluations; a run without a seed reports the seed that reproduces it.",
 ["schedules", "inputs", "configurations"], "all seeds, population settings, thread counts and interleavings of parallel evaluation, across processes",
 "Needs several processes and schedules; hash-map order and scheduling cannot be sampled by one unit test.",
 ["juno/src/genetics/", "juno/src/easing.rs", "juno/src/trading/evaluation.rs"], [("single seeded generator", "genetics/algorithm.rs evolve"), ("order-independent parallel evaluation", "trading/evaluation.rs evaluate")],
 ["Evolution results over processes and thread pools"])
prop("G02", "Evolution keeps population size, generation count and ranking",
 "An optimisation of n generations reports n + 1 generations (the initial one included), numbered 0 to n in order, evaluates a population of exactly the requested size in each, and each hall of fame is the fittest individuals of that generation's population, sorted best first and as many as requested (or the whole population).",
 ["inputs", "histories", "configurations"], "all population sizes from 2, numbers of generations (including 0), hall-of-fame sizes, selection and reinsertion settings and seeds",
 "No test runs the genetic algorithm.",
 ["juno/src/genetics/algorithm.rs", "juno/src/genetics/reinsertion.rs"], [("generation loop", "genetics/algorithm.rs evolve, run_generation"), ("reinsertion", "genetics/reinsertion.rs")],
 ["on_generation callbacks, Evolution.generations, instrumented operators"])
prop("G03", "Elitist evolution never loses its best individual",
 "With elitist reinsertion, every individual of the next population is either a surviving parent (the best ones, unchanged), an offspring, or newly generated; the best fitness never decreases from one generation to the next.",
 ["inputs", "histories", "configurations"], "all populations, seeds, selection and generation rates (generation below one) that keep at least one parent",
 "Holds over whole evolution histories; untested.",
 ["juno/src/genetics/reinsertion.rs", "juno/src/genetics/algorithm.rs"], [("elite reinsertion", "genetics/reinsertion.rs EliteReinsertion::reinsert")],
 ["population before and after each generation"])
prop("G04", "Generated and mutated parameters are always valid and respect pinned values",
 "Every parameter set an optimisation produces by generation, crossover or mutation is valid: it can be instantiated, and its numbers lie within the documented ranges and orderings. Any parameter the user pinned keeps the pinned value in every individual, and intervals always come from the requested list; conversely every alternative of a choice and every part of a documented range is reachable by generation and by mutation alone, and parameters survive being written as JSON and read back.",
 ["inputs", "histories", "configurations"], "all sequences of generate, cross and mutate, all contexts with any subset of parameters pinned",
 "Tests check a few fields of a toy structure; the product of parameters and operation sequences is huge.",
 ["juno_derive/src/macros/", "juno/src/strategies/", "juno/src/stop_loss/", "juno/src/take_profit/", "juno/src/trading/mod.rs"], [("derived generation/crossover/mutation with context", "juno_derive/src/macros/derive_chromosome.rs, derive_chromosome_enum.rs")],
 ["chromosome contents after each operation"])
prop("G05", "Crossover and mutation touch exactly the addressed gene",
 "Crossing two parameter sets at gene i swaps gene i between them and nothing else, so crossing twice restores both; mutating gene i changes nothing but gene i; genes of nested parameter groups are addressed without gaps or overlaps.",
 ["inputs", "histories"], "all chromosome types, all pairs of individuals and gene indices",
 "Tests use small structures; index arithmetic of nested groups fails only at particular positions.",
 ["juno_derive/src/macros/", "juno/src/genetics/"], [("gene index arithmetic", "juno_derive/src/macros/*.rs")], ["serialised chromosomes before and after"])
prop("G06", "Selection prefers fit parents and returns only existing parents",
 "Elite selection returns exactly the best share of the parents (in any order when shuffled); tournament selection returns, for each slot, the fittest of a random group of parents of the configured size (at least one), never a losing member; groups are drawn evenly from all parents and independently for every slot, and shuffling is even; each selects as many as its rate asks for, and selected individuals are unchanged copies of parents.",
 ["inputs", "configurations"], "all populations, rates, tournament sizes and seeds",
 "Selection is untested.",
 ["juno/src/genetics/selection.rs"], [("selection", "genetics/selection.rs")], ["selected individuals"])
prop("G07", "Every reported fitness is the evaluation of that very chromosome",
 "The fitness of each individual in any reported generation equals the aggregate (sum, or logarithmic sum penalising losses) over the training symbols of the chosen statistic of a backtest of exactly its parameters with the requested funds; it depends neither on the other individuals nor on the symbols' data order in memory.",
 ["inputs", "histories", "configurations", "schedules"], "all populations, training symbol sets, statistics, aggregations and generations",
 "A stale or swapped fitness needs a history of selection, mutation and reinsertion to appear; untested.",
 ["juno/src/trading/evaluation.rs", "juno/src/genetics/algorithm.rs"], [("evaluation", "trading/evaluation.rs BasicEvaluation"), ("re-evaluation after variation", "genetics/algorithm.rs run_generation")],
 ["fitness of hall-of-fame individuals next to independent evaluation"])
prop("G08", "Every selected offspring takes part in variation at the configured rates",
 "In each generation the selected offspring are paired up so that every one of them can take part in crossover, each pair is crossed and each gene of every offspring is mutated with the configured probability independently of the others: never with probability zero, always with probability one, and at that rate otherwise; variation never touches the surviving parents.",
 ["inputs", "histories", "configurations"], "all population sizes (odd and even), chromosome lengths, probabilities and seeds",
 "Statistical behaviour and the pairing of odd populations need many instrumented runs; no test runs the genetic algorithm.",
 ["juno/src/genetics/crossover.rs", "juno/src/genetics/mutation.rs", "juno/src/genetics/algorithm.rs"], [("variation operators", "genetics/crossover.rs UniformCrossover, genetics/mutation.rs UniformMutation"), ("pairing of offspring", "genetics/algorithm.rs run_generation")],
 ["instrumented chromosomes recording which genes are crossed and mutated"])
prop("S01", "Core statistics follow from the positions",
 "Profit is the sum of position profits, gain is cost plus profit, return is profit over cost, counts of positions split by sign and by exit reason add up, mean profit and duration are averages, and drawdowns are relative falls of the running balance below its running maximum (the largest and the mean of them).",
 ["inputs", "histories"], "all position histories, including empty ones",
 "One fixed summary of two positions is tested, only for agreement of two implementations.",
 ["juno/src/statistics/core.rs", "juno/src/statistics/mod.rs"], [("fold over positions", "statistics/core.rs CoreStatistics::compose")], ["CoreStatistics, PositionStatistics"])
prop("S02", "Optimised statistics equal the reported ones and are always finite",
 "The profit, return over drawdown, Sharpe and Sortino figures used while optimising equal those reported for the same backtest, and the ratios are finite for every history: flat, empty, always winning, always losing, a single day or a total loss.",
 ["inputs", "histories"], "all position histories and daily price histories",
 "One summary with constant prices is tested; degenerate histories are not.",
 ["juno/src/statistics/core.rs", "juno/src/statistics/extended.rs"], [("two implementations per figure", "statistics/core.rs, statistics/extended.rs")], ["compose() vs get_*()"])
prop("H01", "Backtest requests give each symbol the result of its own data",
 "A backtest response holds exactly one entry per distinct requested symbol, equal to a direct backtest of that symbol's own candles, fees, filters and borrow information, whatever the order in which the data service answers.",
 ["schedules", "inputs"], "all symbol lists (with duplicates), all completion orders of the concurrent upstream requests",
 "The concurrent gathering is tested for none of its orders; the only server test covers a helper.",
 ["juno_axum/src/routes/backtest.rs", "juno_axum/src/exchange.rs", "juno/src/clients/juno_core.rs"], [("joined upstream calls and pairing of replies", "juno_axum/src/exchange.rs")],
 ["HTTP responses of the running server against a scripted data service"])
prop("H02", "Upstream failures become error replies and never take the server down",
 "If any upstream call fails, by connection loss, client or server error status, malformed or truncated body, or data lacking what the request names, or if the computation cannot be done, the request is answered with an internal-error status and a JSON message, carrying the service's own message when it gave one; no partial result is returned, other requests in flight are unaffected, and later requests are served correctly. Malformed requests are refused with a client-error status without calling the service.",
 ["fault_sequences", "schedules"], "all placements of a fault among the upstream calls of a request, all fault kinds, and sequences of good and faulty requests",
 "No test exercises the HTTP layer.",
 ["juno_axum/src/error.rs", "juno_axum/src/exchange.rs", "juno/src/clients/juno_core.rs"], [("error mapping", "juno_axum/src/error.rs"), ("status handling", "juno/src/clients/juno_core.rs error_for_juno_status")],
 ["HTTP responses under injected upstream faults"])
prop("H03", "Optimise responses report real generations and are reproducible",
 "An optimise response lists, with their true generation numbers in increasing order, exactly the generations in which some hall-of-fame rank improved on its best so far, each individual with statistics for every distinct training and validation symbol, while fitness uses training symbols only; the echoed seed, sent back, reproduces the response.",
 ["inputs", "histories", "configurations"], "all seeds, population settings and training/validation symbol lists",
 "No test exercises the optimise route.",
 ["juno_axum/src/routes/optimize.rs"], [("filtering and numbering of generations", "juno_axum/src/routes/optimize.rs par_optimize")],
 ["HTTP responses of the optimise route against a direct run of the library"])
prop("H04", "Pages of every origin can use every route and read every reply",
 "Whatever its origin, and however many pages are at it, a page in a browser is permitted every call it asks permission for and can read every reply, failures included. A path the server does not have is not found, a method a path does not serve is not allowed, a document a route cannot read is the caller's error, a computation or data service failure is an internal error with a message, everything else succeeds; what is offered is a JSON list of exactly the statistics and aggregations there are.",
 ["inputs", "schedules"], "all origins, methods, paths, headers, bodies, and interleavings of pages",
 "No test runs the server's router.",
 ["juno_axum/src/main.rs", "juno_axum/src/routes/optimize.rs", "juno_axum/src/error.rs"], [("router and cross-origin layer", "juno_axum/src/main.rs"), ("choices on offer", "juno_axum/src/routes/optimize.rs get")],
 ["HTTP replies of the running server to simulated browsers"])
prop("C01", "The data service client asks what was requested and returns what was answered",
 "Whatever a call of the data service client requests names exactly the exchange, symbols, interval, type and span it was given, and the call's own caller receives exactly the values answered to that request, complete and in the answered order, however many calls are on their way and in whatever order they are answered. A refusal by the service becomes an error carrying the service's status and message; any other failure (lost connection, cut or malformed body, missing parts) becomes an error; nothing is made up, and a failed call leaves later calls unaffected.",
 ["schedules", "inputs", "fault_sequences"], "all calls and arguments, all interleavings of concurrent calls and replies, all replies, well-formed or not",
 "No test runs the client against a service.",
 ["juno/src/clients/juno_core.rs"], [("requests and decoding", "juno/src/clients/juno_core.rs"), ("status handling", "juno/src/clients/juno_core.rs error_for_juno_status")],
 ["requests received by a scripted service and values returned by the client"])
prop("E03", "Easing curves run from zero to one along their declared shape",
 "Every easing curve starts at 0 and ends at 1; its in, out and in-out forms agree: out is in reflected about the middle, in-out is in at half size followed by out at half size. Each family follows its closed form (power, sine, circle, exponential, back, elastic, bounce and linear), so only back and elastic curves ever leave the span from 0 to 1 and every other curve never falls.",
 ["inputs"], "all curves and all progress values between 0 and 1",
 "Curves are sampled nowhere in the tests; a wrong branch boundary shows only between particular progress values.",
 ["juno/src/easing.rs"], [("curves", "juno/src/easing.rs")], ["Easing evaluated over whole progress ranges"])
prop("P03", "Arithmetic of times and intervals is exact",
 "Adding an interval to a time and subtracting it again restores the time; differences, sums, multiples, quotients, remainders and comparisons of times and intervals agree with those of the numbers of milliseconds they stand for, exactly; rounding a time or interval down or up to a multiple (also counted from an offset) gives the nearest multiple not above or not below it; named units are worth what they say, and the current time lies between the moments before and after asking.",
 ["inputs"], "all times up to the year 9999 and all intervals, multiples and offsets",
 "Tests try single values; errors of truncation or overflow show only for large or coinciding values.",
 ["juno/src/primitives/timestamp.rs", "juno/src/primitives/interval.rs", "juno/src/math.rs"], [("operators", "juno/src/primitives/timestamp.rs, interval.rs"), ("multiples", "juno/src/math.rs floor_multiple, ceil_multiple")],
 ["results of the operators"])
prop("M01", "Rounding, averages and sequence helpers follow their definitions",
 "Rounding down to a precision gives the largest multiple of the unit not above the value and rounding half up the nearest one, ties upwards; neither changes a value that already is a multiple. Mean, deviation and annualised return equal their definitions; interpolation stays between its bounds and reaches both; pairwise iteration yields every adjacent pair once and in order; least and greatest are found whatever their place; the checksum of names is Adler-32 over their characters, so that moving averages named by checksum are the ones meant.",
 ["inputs"], "all values, precisions and sequences, including empty and single-element ones",
 "Tests try a handful of values; wrong results appear at ties, at exact multiples and for short sequences.",
 ["juno/src/math.rs", "juno/src/itertools.rs"], [("rounding and averages", "juno/src/math.rs"), ("sequences", "juno/src/itertools.rs")],
 ["results of the functions"])
prop("M02", "Symbols, fills and candles combine without loss",
 "A symbol splits at its first separator into its base and its quote asset, and listed parts follow the order of the symbols; totals over fills equal the sums of their sizes, quotes and fees, also for none; joining candles keeps the first open and the last close, the highest high, the lowest low and the summed volume, whatever the grouping in which they are joined.",
 ["inputs", "histories"], "all symbols, all lists of fills, all sequences of candles and groupings",
 "Only one symbol and no list of fills is tested.",
 ["juno/src/primitives/symbol.rs", "juno/src/trading/mod.rs", "juno/src/lib.rs"], [("symbol parts", "primitives"), ("fill totals", "trading/mod.rs Fill::total_*"), ("candle sum", "juno/src/lib.rs AddAssign for Candle")],
 ["results of the functions"])
prop("J01", "Documents are read and written without loss or misreading",
 "Every parameter set, pinning context, candle, exchange description and result written as JSON holds exactly the documented fields under their documented names and is read back as the same value; a document that lacks a required field, or gives a value of the wrong kind, an unknown alternative or a number outside its range, is refused, never misread; optional fields left out mean what they mean when they are given as empty; the order of fields means nothing; intervals and times may be given as text or as milliseconds.",
 ["inputs"], "all documents: generated ones, with parts removed, reordered, respelled and replaced by values of other kinds",
 "Tests parse a few fixed documents; a renamed, skipped or defaulted field shows only for the documents which use it.",
 ["juno/src/trading/mod.rs", "juno/src/lib.rs", "juno/src/strategies/mod.rs", "juno/src/stop_loss/mod.rs", "juno/src/take_profit/mod.rs", "juno/src/statistics/mod.rs", "juno_derive/src/macros/"], [("serialisation attributes", "serde attributes across the crate"), ("derived contexts", "juno_derive/src/macros/derive_chromosome_enum.rs")],
 ["serde_json round trips of public types"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
