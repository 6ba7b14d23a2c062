//! Names of labels, tasks and frames; scenario files.
use crate::eval::*;
use crate::obj::*;
use crate::place::placed;
use perception_eval::{
    config::PerceptionEvaluationConfig,
    evaluation_task::{set_task, EvaluationTask},
    filter::filter_objects,
    frame_id::FrameID,
    label::{convert_labels, LabelConverter},
    manager::PerceptionEvaluationManager,
};
use serde_json::{json, Value};
use std::str::FromStr;

fn task_name(task: &EvaluationTask) -> &'static str {
    match task {
        EvaluationTask::Detection => "Detection",
        EvaluationTask::Tracking => "Tracking",
        EvaluationTask::Prediction => "Prediction",
    }
}

pub fn names(case: &Value) -> Value {
    let conv = LabelConverter::new("autoware").unwrap();
    let list: Vec<&str> = case["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let each: Vec<&str> = list.iter().map(|n| label_name(&conv.convert(n))).collect();
    let again: Vec<String> = list
        .iter()
        .map(|n| {
            let l = conv.convert(n);
            conv.convert(&l.to_string()).to_string()
        })
        .collect();
    let whole: Vec<String> = match convert_labels(&list, &conv) {
        Ok(ls) => ls.iter().map(|l| label_name(l).to_string()).collect(),
        Err(_) => vec!["error".to_string()],
    };
    let shown: Vec<String> = list.iter().map(|n| conv.convert(n).to_string()).collect();
    let named: Vec<String> = list
        .iter()
        .map(|n| {
            let mut o = object(&json!({"p": [0, 0, 0], "h": 0, "q": [1, 0, 0, 0], "s": [1, 1, 1], "l": "Car", "id": "",
                                       "n": -1, "t": 0, "c": 0, "f": "BaseLink", "v": []}));
            o.label = conv.convert(n);
            o.label_name()
        })
        .collect();
    let strs = |k: &str| -> Vec<String> {
        case[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
    };
    let tasks: Vec<String> = strs("tasks")
        .iter()
        .map(|t_text| match EvaluationTask::from_str(t_text) {
            Err(_) if set_task(t_text).is_ok() => "only set".to_string(),
            Err(_) => "error".to_string(),
            Ok(t) => {
                let name = task_name(&t);
                if !set_task(t_text).map(|b| b == t).unwrap_or(false) {
                    return format!("{name} not set");
                }
                let back = EvaluationTask::from_str(&t.to_string());
                if back.map(|b| b == t).unwrap_or(false) {
                    name.to_string()
                } else {
                    format!("{name} not displayed back")
                }
            }
        })
        .collect();
    let kinds: Vec<bool> = [EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction]
        .iter()
        .map(|t| t.is_3d() && !t.is_2d())
        .collect();
    let frames: Vec<String> = strs("frames")
        .iter()
        .map(|t| match FrameID::from_str(t) {
            Err(_) => "error".to_string(),
            Ok(t) => {
                let name = frame_name(&t);
                let back = FrameID::from_str(&t.to_string());
                if back.map(|b| b == t).unwrap_or(false) {
                    name.to_string()
                } else {
                    format!("{name} not displayed back")
                }
            }
        })
        .collect();
    let prefixes: Vec<bool> = strs("prefixes").iter().map(|p| LabelConverter::new(p).is_ok()).collect();
    json!({"labels": each, "again": again, "whole": whole, "shown": shown, "tasks": tasks,
           "frames": frames, "prefixes": prefixes, "kinds": kinds, "named": named})
}

/// Builds every configuration of a list of scenario files, one after the other, in one process.
pub fn config(case: &Value) -> Value {
    let mut out = Vec::new();
    for c in case["files"].as_array().unwrap() {
        set_unit(c);
        let path = c["path"].as_str().unwrap();
        let dir = c["dir"].as_str().unwrap();
        let raw = c["raw"].as_bool().unwrap();
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            placed(path, &case["place"], |path| PerceptionEvaluationConfig::from(path, dir, raw))
        }));
        out.push(match got {
            Err(_) => json!({"st": "panic"}),
            Ok(Err(_)) => json!({"st": "err"}),
            Ok(Ok(cfg)) => {
                let probes = objects(&c["probes"]);
                let gts = indices(&filter_objects(&probes, true, &cfg.filter_params), &probes);
                let ests = indices(&filter_objects(&probes, false, &cfg.filter_params), &probes);
                let mut shown = cfg.clone();
                shown.evaluation_task = EvaluationTask::Detection;
                let manager = PerceptionEvaluationManager {
                    config: &shown,
                    frame_ground_truths: Vec::new(),
                    frame_results: Vec::new(),
                };
                let text = manager.get_metrics_score().map(|s| s.to_string()).unwrap_or_default();
                json!({
                    "st": "ok",
                    "version": cfg.version,
                    "dataset": cfg.dataset_path.to_str().unwrap(),
                    "task": task_name(&cfg.evaluation_task),
                    "frame": frame_name(&cfg.frame_id),
                    "result": cfg.result_dir.to_str().unwrap(),
                    "log": cfg.log_dir.to_str().unwrap(),
                    "viz": cfg.viz_dir.to_str().unwrap(),
                    "raw": cfg.load_raw_data,
                    "gts": gts,
                    "ests": ests,
                    "text": text,
                    "debug": format!("{:?}", cfg.metrics_params),
                    "logfile": cfg.log_dir.join("output.log").is_file(),
                })
            }
        });
    }
    json!({"out": out})
}
