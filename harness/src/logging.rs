//! The process-wide log.
use log::Level;
use perception_eval::{config::PerceptionEvaluationConfig, utils::logger::configure_logger};
use serde_json::{json, Value};
use std::path::Path;

fn level(name: &str) -> Level {
    match name {
        "Error" => Level::Error,
        "Warn" => Level::Warn,
        "Info" => Level::Info,
        "Debug" => Level::Debug,
        "Trace" => Level::Trace,
        _ => panic!("harness: level {name}"),
    }
}

/// The lines of the case's own messages: number, and the level the line names.
fn lines(path: &Path, said: &[(i64, String)]) -> Vec<Value> {
    let text = std::fs::read(path).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let m: i64 = l.split("probe ").nth(1)?.split_whitespace().next()?.parse().ok()?;
            let text = said.iter().find(|(n, _)| *n == m).map(|(_, text)| text.as_str()).unwrap_or_default();
            let whole = !text.is_empty() && l.contains(text);
            let rest = if whole { l.replacen(text, "", 1) } else { l.to_string() }.to_lowercase();
            let words = ["Error", "Warn", "Info", "Debug", "Trace"];
            let lv = words.iter().find(|w| rest.contains(&w.to_lowercase())).unwrap_or(&"none");
            Some(json!({"m": m, "lv": lv, "whole": whole}))
        })
        .collect()
}

pub fn logging(case: &Value) -> Value {
    let root = Path::new(case["root"].as_str().unwrap());
    let ended = |ok: bool| if ok { "ok" } else { "err" };
    let mut said: Vec<(i64, String)> = Vec::new();
    let sts: Vec<&str> = case["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|op| {
            let dir = || root.join(op["dir"].as_str().unwrap());
            match op["op"].as_str().unwrap() {
                "conf" => ended(configure_logger(&dir().join("log"), level(op["lv"].as_str().unwrap())).is_ok()),
                "scenario" => {
                    let scenario = case["scenario"].as_str().unwrap();
                    ended(PerceptionEvaluationConfig::from(scenario, dir().to_str().unwrap(), false).is_ok())
                }
                "emit" => {
                    let text = format!("probe {} {} end", op["m"], op["text"].as_str().unwrap_or(""));
                    log::log!(level(op["lv"].as_str().unwrap()), "{text}");
                    said.push((op["m"].as_i64().unwrap(), text));
                    "ok"
                }
                other => panic!("harness: logging {other}"),
            }
        })
        .collect();
    let files: Vec<Vec<Value>> = case["dirs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|d| lines(&root.join(d.as_str().unwrap()).join("log/output.log"), &said))
        .collect();
    json!({"sts": sts, "files": files})
}
