//! The whole way from a scenario file and a dataset to scores.
use crate::data::truth;
use crate::eval::{add, query};
use crate::obj::*;
use crate::place::placed;
use perception_eval::{
    config::PerceptionEvaluationConfig, dataset::FrameGroundTruth, manager::PerceptionEvaluationManager,
};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn same_frame(a: &FrameGroundTruth, b: &FrameGroundTruth) -> bool {
    a.timestamp == b.timestamp
        && a.objects.len() == b.objects.len()
        && a.objects.iter().zip(b.objects.iter()).all(|(x, y)| same(x, y))
}

/// Earlier content of the places is read first.
pub fn pipeline(case: &Value) -> Value {
    let at = |c: &Value| {
        placed(c["scenario"].as_str().unwrap(), &case["place"]["scenario"], |path| {
            placed(c["root"].as_str().unwrap(), &case["place"]["root"], |_| evaluated(c, path))
        })
    };
    for earlier in case["before"].as_array().unwrap_or(&Vec::new()) {
        at(earlier);
    }
    at(case)
}

fn evaluated(case: &Value, scenario: &str) -> Value {
    let base = case["base"].as_i64().unwrap() * 1_000_000;
    let got = catch_unwind(AssertUnwindSafe(|| {
        PerceptionEvaluationConfig::from(scenario, case["dir"].as_str().unwrap(), false)
    }));
    let config = match got {
        Err(_) => return json!({"conf": "panic", "load": "none", "truth": [], "steps": []}),
        Ok(Err(_)) => return json!({"conf": "err", "load": "none", "truth": [], "steps": []}),
        Ok(Ok(c)) => c,
    };
    let got = catch_unwind(AssertUnwindSafe(|| PerceptionEvaluationManager::from(&config)));
    let mut manager = match got {
        Err(_) => return json!({"conf": "ok", "load": "panic", "truth": [], "steps": []}),
        Ok(Err(_)) => return json!({"conf": "ok", "load": "err", "truth": [], "steps": []}),
        Ok(Ok(m)) => m,
    };
    // ground truths are recorded in the lattice of the dataset, estimates written in that of the session
    set_unit(&json!({"u": -2}));
    let frames = truth(&manager.frame_ground_truths, base);
    set_unit(case);
    let kept = manager.frame_ground_truths.clone();
    let mut steps = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        steps.push(match op["op"].as_str().unwrap() {
            "query" => query(&manager),
            "frame" => {
                let at = micros(base + op["at"].as_i64().unwrap());
                let got = catch_unwind(AssertUnwindSafe(|| manager.get_frame_ground_truth(&at)));
                match got {
                    Err(_) => json!({"op": "frame", "k": -3}),
                    Ok(None) => json!({"op": "frame", "k": -1}),
                    Ok(Some(gt)) => match kept.iter().position(|f| same_frame(f, &gt)) {
                        None => json!({"op": "frame", "k": -2}),
                        Some(k) => {
                            let mut step = add(&mut manager, &objects(&op["e"]), &gt, base);
                            step["op"] = json!("frame");
                            step["k"] = json!(k + 1);
                            step
                        }
                    },
                }
            }
            other => panic!("harness: op {other}"),
        });
    }
    let unchanged = kept.len() == manager.frame_ground_truths.len()
        && kept.iter().zip(manager.frame_ground_truths.iter()).all(|(a, b)| same_frame(a, b));
    json!({"conf": "ok", "load": "ok", "truth": frames, "steps": steps, "kept": unchanged})
}
