//! Statistics of constructed trading summaries.
use crate::util::*;
use juno::statistics::{self, CoreStatistics, ExtendedStatistics, PositionType, Statistics};
use juno::trading::{CloseReason, LongPosition, Position, ShortPosition, TradingSummary};
use juno::{Fill, Interval, Timestamp};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;

const HOUR: u64 = 3_600_000;

fn hours(ms: u64) -> i64 {
    if ms % HOUR == 0 {
        (ms / HOUR) as i64
    } else {
        BAD
    }
}
fn why(r: CloseReason) -> &'static str {
    match r {
        CloseReason::Strategy => "strategy",
        CloseReason::StopLoss => "stop",
        CloseReason::TakeProfit => "take",
        CloseReason::Cancelled => "cancel",
    }
}
fn reason(rng: &mut Rng) -> CloseReason {
    *rng.pick(&[CloseReason::Strategy, CloseReason::StopLoss, CloseReason::TakeProfit, CloseReason::Cancelled])
}
fn agree(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs())
}

/// Positions which move the balance by chosen amounts.
fn position(rng: &mut Rng, t: &mut i64, end: i64, bal: &mut i64, mood: i64) -> Option<(Position, Value)> {
    let ot = rng.int(*t, (*t + 40).min(end));
    let len = rng.pick_i(&[0, 3, 30, 200]);
    let ct = rng.int(ot, (ot + len).min(end));
    *t = ct;
    if *bal <= 0 {
        return None;
    }
    let x = match mood {
        0 => rng.int(0, (*bal / 3).max(1)),                      // only wins
        1 => -rng.int(0, (*bal / 4).max(1)),                     // only losses
        2 => if rng.bool(1, 3) { -*bal } else if rng.bool(1, 4) { -rng.int(*bal, *bal * 2) } else { rng.int(-*bal / 3, *bal / 2) }, // ruin
        3 => 0,
        4 | 5 => if rng.bool(1, 3) { -rng.int(1, (*bal / 3).max(1)) } else { rng.int(-1, 2) },  // peaks hardly above the last
        _ => rng.int(-*bal / 3, (*bal / 2).max(1)),
    }
    .min(3000 - *bal);
    let cost = *bal - if *bal > 2 && rng.bool(1, 2) { rng.int(0, *bal / 3) } else { 0 };
    let r = reason(rng);
    let (fee_o, fee_c) = (rng.int(0, 4), rng.int(0, 4));
    *bal += x;
    let fill = |size: i64, quote: i64, fee: i64| {
        [Fill { price: if size == 0 { 0.0 } else { quote as f64 / size as f64 }, size: size as f64, quote: quote as f64, fee: fee as f64 }]
    };
    let (open_time, close_time) = (Timestamp(ot as u64 * HOUR), Timestamp(ct as u64 * HOUR));
    let size = rng.int(5, 60);
    // Only a short can lose more than it cost.
    Some(if rng.bool(1, 2) && cost + x >= 0 {
        let close_size = size - fee_o - if rng.bool(1, 4) { 1 } else { 0 };
        let p = LongPosition {
            open_time,
            open_fills: fill(size, cost, fee_o),
            close_time,
            close_fills: fill(close_size, cost + x + fee_c, fee_c),
            close_reason: r,
        };
        (Position::Long(p), json!({"s":"L","ot":ot,"oq":cost,"os":size,"of":fee_o,"ct":ct,"cq":cost+x+fee_c,
            "cs":close_size,"cf":fee_c,"col":0,"bor":0,"why":why(r)}))
    } else {
        let back = rng.int(1, 200).max(1 - x);
        let got = back + x + fee_o;
        let p = ShortPosition {
            open_time,
            collateral: cost as f64,
            borrowed: size as f64,
            open_fills: fill(size, got, fee_o),
            close_time,
            close_fills: fill(size + fee_c, back, fee_c),
            close_reason: r,
        };
        (Position::Short(p), json!({"s":"S","ot":ot,"oq":got,"os":size,"of":fee_o,"ct":ct,"cq":back,
            "cs":size+fee_c,"cf":fee_c,"col":cost,"bor":size,"why":why(r)}))
    })
}

pub fn main(a: &Args) {
    let n = a.opt_i("n", a.n(1500, 20000)) as u64;
    let lines: Vec<Value> = (0..n)
        .into_par_iter()
        .map(|i| {
            let mut rng = Rng::new(a.seed ^ 0x57A7, i);
            let start = rng.int(0, 100);
            // A few backtests of months and years, with hundreds of positions.
            let long = i + a.n(16, 160) as u64 >= n;
            let span = match rng.int(0, 9) {
                _ if long => 24 * rng.pick_i(&[100, 300, 366, 500, 800]) - rng.int(0, 900),
                0 => rng.int(0, 23),
                1 => rng.int(24, 72),
                _ => rng.int(72, 24 * 25),
            };
            let end = start + span;
            let q0 = rng.pick_i(&[10, 100, 500, 1000, 999, 2900]);
            let days = (end / 24 - start / 24) as usize;
            let mut prices = |kind: i64| -> Vec<i64> {
                let mut p = rng.int(10, 40);
                (0..=days)
                    .map(|_| {
                        match kind {
                            0 => {}
                            1 => p = (p + rng.int(-1, 1)).max(1),
                            2 => p = rng.int(5, 60),
                            3 => p += rng.int(0, 2),
                            _ => p = (p - rng.int(0, 1)).max(1),
                        }
                        p
                    })
                    .collect()
            };
            let (kq, kb) = ([0, 0, 1, 1, 2, 3, 4][(i % 7) as usize], [0, 1, 2, 3, 4][(i % 5) as usize]);
            let (qp, bp) = (prices(kq), prices(kb));
            let mut bal = q0;
            let mut t = start;
            let mood = rng.int(0, 9);
            let count = if long {
                rng.int(100, 400)
            } else if rng.bool(1, 6) { rng.int(0, 1) } else { rng.int(2, 12) };
            let mut positions = vec![];
            let mut recs = vec![];
            for _ in 0..count {
                let until = if long { end.min(t + 2 * span / count) } else { end };
                if let Some((p, v)) = position(&mut rng, &mut t, until, &mut bal, mood) {
                    positions.push(p);
                    recs.push(v);
                }
            }
            let mut summary = TradingSummary::new(Timestamp(start as u64 * HOUR), Timestamp(end as u64 * HOUR), q0 as f64);
            summary.positions = positions;
            let mut map = HashMap::new();
            map.insert("eth".to_owned(), bp.iter().map(|x| *x as f64).collect::<Vec<_>>());
            map.insert("btc".to_owned(), qp.iter().map(|x| *x as f64).collect::<Vec<_>>());
            map.insert("usdt".to_owned(), vec![1.0; days + 1]);
            let cfg = json!({"q0":q0,"start":start,"end":end,"qp":qp,"bp":bp});
            let day = Interval::DAY_MS;
            let ev = caught(|| {
                let s = Statistics::compose(&summary, "eth-btc", &map, day);
                let core = CoreStatistics::compose(&summary);
                let ext = ExtendedStatistics::compose(&summary, "eth-btc", &map, day);
                let mut ev: Vec<Value> = recs
                    .iter()
                    .zip(s.positions.iter())
                    .map(|(p, o)| {
                        json!({"e":"pos","p":p,"out":{"type":match o.type_ { PositionType::Long => "L", PositionType::Short => "S" },
                            "ot":hours(o.open_time.0),"ct":hours(o.close_time.0),"dur":hours(o.duration.0),"why":why(o.close_reason),
                            "cost":grid(o.cost,1.0),"gain":grid(o.gain,1.0),"profit":grid(o.profit,1.0),"roi":near(o.roi,1e4),
                            "aroi":near(o.annualized_roi,1e4)}})
                    })
                    .collect();
                if s.positions.len() != recs.len() {
                    ev.push(json!({"e":"missing positions"}));
                }
                for c in [&s.core, &core] {
                    let (op, od) = (statistics::get_profit(&summary), statistics::get_return_over_max_drawdown(&summary));
                    ev.push(json!({"e":"core","start":hours(c.start.0),"end":hours(c.end.0),"dur":hours(c.duration.0),
                        "cost":grid(c.cost,1.0),"gain":grid(c.gain,1.0),"profit":grid(c.profit,1.0),"roi":near(c.roi,1e4),
                        "aroi":near(c.annualized_roi,1e4),"mprofit":near(c.mean_position_profit,1e4),
                        "mdur":(c.mean_position_duration.0 / 1000),"mms":c.mean_position_duration.0 % 1000,"dd":near(c.max_drawdown,1e5),"mdd":near(c.mean_drawdown,1e5),
                        "rodd":near(c.return_over_max_drawdown,1e2),"n":c.num_positions,"won":c.num_positions_in_profit,
                        "lost":c.num_positions_in_loss,"stops":c.num_stop_losses,"takes":c.num_take_profits,
                        "oprofit":grid(op,1.0),"orodd":near(od,1e2),"finite":c.return_over_max_drawdown.is_finite() && od.is_finite(),
                        "agree":agree(op,c.profit) && agree(od,c.return_over_max_drawdown)}));
                }
                for x in [&s.extended, &ext] {
                    let os = statistics::get_sharpe_ratio(&summary, "eth-btc", &map, day);
                    let oo = statistics::get_sortino_ratio(&summary, "eth-btc", &map, day);
                    let finite = [x.sharpe_ratio, x.sortino_ratio, os, oo].iter().all(|v| v.is_finite());
                    ev.push(json!({"e":"ext","sharpe":near(x.sharpe_ratio,1e2),"sortino":near(x.sortino_ratio,1e2),
                        "osharpe":near(os,1e2),"osortino":near(oo,1e2),"aret":near(x.annualized_return,1e2),
                        "finite":finite,
                        "agree":agree(x.sharpe_ratio,os) && agree(x.sortino_ratio,oo)}));
                }
                ev
            })
            .unwrap_or_else(|m| vec![json!({"e":"panic","msg":m})]);
            run(i as usize + 1, "stats", cfg, ev)
        })
        .collect();
    write_lines(&a.out, &lines);
}
