//! Calls of the data service's client, steered line by line from standard input:
//! {"q":..,"op":..,"exchange":..,"symbol":..,"interval":..,"start":..,"end":..,"type":..,"assets":[..],"target":..}
//! Every call runs concurrently; its outcome is printed as one line.
use crate::util::*;
use juno::clients::juno_core::{Client, Error, GetExchangeInfo, ListCandles, MapAssetPrices};
use juno::{CandleType, Interval, Timestamp};
use serde::Serialize;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::Arc;

fn outcome<T: Serialize>(r: Result<T, Error>) -> Value {
    match r {
        Ok(v) => json!({"kind":"ok","value":serde_json::to_value(v).unwrap()}),
        Err(e) => {
            let text = e.to_string();
            match e {
                Error::Api { status, message, url } => {
                    json!({"kind":"api","status":status.as_u16(),"message":message,"path":url.path(),"text":text})
                }
                _ => json!({"kind":"error","text":text}),
            }
        }
    }
}

async fn call(client: Arc<Client>, x: Value) -> Value {
    let s = |k: &str| x[k].as_str().unwrap().to_owned();
    let n = |k: &str| x[k].as_u64().unwrap();
    let exchange = s("exchange");
    match x["op"].as_str().unwrap() {
        "info" => outcome(client.get_exchange_info(GetExchangeInfo { exchange: &exchange }).await),
        "intervals" => outcome(client.list_candle_intervals(GetExchangeInfo { exchange: &exchange }).await),
        op @ ("candles" | "filled") => {
            let symbol = s("symbol");
            let request = ListCandles {
                exchange: &exchange,
                symbol: &symbol,
                interval: Interval(n("interval")),
                start: Timestamp(n("start")),
                end: Timestamp(n("end")),
                type_: if x["type"] == "regular" { CandleType::Regular } else { CandleType::HeikinAshi },
            };
            if op == "candles" {
                outcome(client.list_candles(request).await)
            } else {
                outcome(client.list_candles_fill_missing_with_none(request).await)
            }
        }
        "prices" => {
            let assets: Vec<String> = x["assets"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().to_owned()).collect();
            let assets: Vec<&str> = assets.iter().map(String::as_str).collect();
            let target = s("target");
            outcome(
                client
                    .map_asset_prices(MapAssetPrices {
                        exchange: &exchange,
                        assets: &assets,
                        interval: Interval(n("interval")),
                        start: Timestamp(n("start")),
                        end: Timestamp(n("end")),
                        target_asset: &target,
                    })
                    .await,
            )
        }
        op => panic!("unknown operation {op}"),
    }
}

pub fn main(a: &Args) {
    let url = a.opts["url"].clone();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let client = Arc::new(Client::new(&url));
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let x: Value = serde_json::from_str(&line).unwrap();
        let client = client.clone();
        rt.spawn(async move {
            let q = x["q"].clone();
            let r = match tokio::spawn(call(client, x)).await {
                Ok(v) => v,
                Err(_) => json!({"kind":"panic"}),
            };
            let mut out = std::io::stdout().lock();
            let _ = writeln!(out, "{}", json!({"q":q,"r":r}));
            let _ = out.flush();
        });
    }
}
