//! Filtering, matching, frame evaluation, sessions of the manager and frame lookup.
use crate::obj::*;
use perception_eval::{
    config::{FilterParams, MetricsParams, PerceptionEvaluationConfig},
    dataset::{get_current_frame, FrameGroundTruth},
    evaluation_task::EvaluationTask,
    filter::filter_objects,
    frame_id::FrameID,
    manager::PerceptionEvaluationManager,
    matching::MatchingMode,
    object::object3d::DynamicObject,
    result::{
        frame::PerceptionFrameResult,
        object::{get_perception_results, PerceptionResult},
    },
    threshold::{get_label_threshold, LabelThreshold},
};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub fn mode(v: &str) -> MatchingMode {
    match v {
        "center" => MatchingMode::CenterDistance,
        "plane" => MatchingMode::PlaneDistance,
        "iou2d" => MatchingMode::Iou2d,
        "iou3d" => MatchingMode::Iou3d,
        _ => panic!("harness: mode {v}"),
    }
}

/// Thresholds are lattice lengths for distances, thousandths for overlaps.
pub fn threshold(mode: &str, t: i64) -> f64 {
    match mode {
        "center" | "plane" => metres(t),
        _ => t as f64 / 1000.0,
    }
}

fn names(v: &Value) -> Vec<&str> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect()
}

fn uuids(v: &Value) -> Option<Vec<String>> {
    v["on"].as_bool().unwrap().then(|| names(&v["ids"]).iter().map(|s| id_text(s)).collect())
}

fn min_points(v: &Value) -> Option<usize> {
    let n = v.as_i64().unwrap();
    (n >= 0).then_some(n as usize)
}

pub fn filter_params(v: &Value) -> FilterParams {
    FilterParams::new(
        &names(&v["labels"]),
        metres(v["mx"].as_i64().unwrap()),
        metres(v["my"].as_i64().unwrap()),
        min_points(&v["mp"]),
        uuids(&v["uuids"]),
    )
    .unwrap()
}

pub fn filter(case: &Value) -> Value {
    let objs = objects(&case["objs"]);
    let params = filter_params(&case["cfg"]);
    let kept = filter_objects(&objs, case["gt"].as_bool().unwrap(), &params);
    json!({"kept": indices(&kept, &objs)})
}

fn frame_obs(
    f: &PerceptionFrameResult,
    ests: &[DynamicObject],
    gts: &[DynamicObject],
    base: i64,
) -> Value {
    json!({
        "res": pairs(f.results(), ests, gts),
        "tp": positions(f.results(), f.tp_results()),
        "fp": positions(f.results(), f.fp_results()),
        "fn": indices(f.fn_objects(), gts),
        "gt": indices(&f.frame_ground_truth().objects, gts),
        "gtt": since(&f.frame_ground_truth().timestamp, base),
    })
}

pub fn frame(case: &Value) -> Value {
    let ests = objects(&case["e"]);
    let gts = objects(&case["g"]);
    let given = case["pairs"].as_array().unwrap();
    let results = if case["match"].as_bool().unwrap() {
        get_perception_results(&ests, &gts)
    } else {
        given
            .iter()
            .map(|p| {
                let p = ints(p);
                PerceptionResult::new(
                    ests[p[0] as usize - 1].clone(),
                    (p[1] > 0).then(|| gts[p[1] as usize - 1].clone()),
                )
            })
            .collect()
    };
    let m = case["mode"].as_str().unwrap();
    let targets = labels(&case["targets"]);
    let thr: Vec<f64> = ints(&case["thr"]).iter().map(|t| threshold(m, *t)).collect();
    let lookup: Vec<i64> = labels(&case["look"])
        .iter()
        .map(|l| {
            let t = ints(&case["thr"]);
            let a = get_label_threshold(l, &targets, &t);
            let b = LabelThreshold::new(l, &targets).get_threshold(&t);
            if a != b {
                -999_999
            } else {
                a.unwrap_or(-1)
            }
        })
        .collect();
    let correct: Vec<bool> = results
        .iter()
        .map(|r| {
            get_label_threshold(&r.estimated_object.label, &targets, &thr)
                .map(|t| r.is_result_correct(&mode(m), &t).unwrap())
                .unwrap_or(false)
        })
        .collect();
    let same_label: Vec<bool> = results.iter().map(|r| r.is_label_correct()).collect();
    let f = PerceptionFrameResult::new(
        results.clone(),
        FrameGroundTruth { timestamp: micros(1_000_000), objects: gts.clone() },
        &targets,
        mode(m),
        &thr,
    )
    .unwrap();
    let mut obs = frame_obs(&f, &ests, &gts, 0);
    obs["matched"] = json!(pairs(&results, &ests, &gts));
    obs["look"] = json!(lookup);
    obs["correct"] = json!(correct);
    obs["samelabel"] = json!(same_label);
    obs
}

fn task(v: &str) -> EvaluationTask {
    match v {
        "Detection" => EvaluationTask::Detection,
        "Tracking" => EvaluationTask::Tracking,
        "Prediction" => EvaluationTask::Prediction,
        _ => panic!("harness: task {v}"),
    }
}

fn configured(cfg: &Value) -> PerceptionEvaluationConfig {
    PerceptionEvaluationConfig {
        version: "v".to_string(),
        dataset_path: PathBuf::from("."),
        evaluation_task: task(cfg["task"].as_str().unwrap()),
        frame_id: FrameID::BaseLink,
        result_dir: PathBuf::from("."),
        log_dir: PathBuf::from("."),
        viz_dir: PathBuf::from("."),
        filter_params: filter_params(cfg),
        metrics_params: MetricsParams::new(
            &names(&cfg["labels"]),
            metres(cfg["tc"].as_i64().unwrap()),
            metres(cfg["tp"].as_i64().unwrap()),
            0.5,
            0.5,
        )
        .unwrap(),
        load_raw_data: false,
    }
}

fn managed(config: &PerceptionEvaluationConfig) -> PerceptionEvaluationManager<'_> {
    PerceptionEvaluationManager { config, frame_ground_truths: Vec::new(), frame_results: Vec::new() }
}

fn operate(manager: &mut PerceptionEvaluationManager, op: &Value) -> Value {
    match op["op"].as_str().unwrap() {
        "add" => {
            let ests = objects(&op["e"]);
            let gt = FrameGroundTruth {
                timestamp: micros(op["t"].as_i64().unwrap()),
                objects: objects(&op["g"]),
            };
            add(manager, &ests, &gt, 0)
        }
        "query" => query(manager),
        "keep" => {
            manager.frame_results.truncate(op["n"].as_u64().unwrap() as usize);
            json!({"op": "keep"})
        }
        "turn" => {
            manager.frame_results.reverse();
            json!({"op": "turn"})
        }
        other => panic!("harness: op {other}"),
    }
}

/// One manager (cfg), or several (cfgs) of which each operation names one (m).
pub fn session(case: &Value) -> Value {
    let cfgs: Vec<&Value> = match case["cfgs"].as_array() {
        Some(list) => list.iter().collect(),
        None => vec![&case["cfg"]],
    };
    let configs: Vec<PerceptionEvaluationConfig> = cfgs.into_iter().map(configured).collect();
    let ops = case["ops"].as_array().unwrap();
    let of = |op: &Value| op["m"].as_u64().unwrap_or(1) as usize - 1;
    if case["par"].as_bool() == Some(true) {
        return at_once(case, &configs, ops);
    }
    let mut managers: Vec<PerceptionEvaluationManager> = configs.iter().map(managed).collect();
    let mut steps = Vec::new();
    for op in ops {
        if op["op"] == "fork" {
            managers[op["to"].as_u64().unwrap() as usize - 1] = managers[of(op)].clone();
            steps.push(json!({"op": "fork"}));
        } else {
            steps.push(operate(&mut managers[of(op)], op));
        }
    }
    json!({"steps": steps})
}

/// Every manager in a thread of its own.
fn at_once(case: &Value, configs: &[PerceptionEvaluationConfig], ops: &[Value]) -> Value {
    let ready = std::sync::Barrier::new(configs.len());
    let mut steps = vec![Value::Null; ops.len()];
    std::thread::scope(|scope| {
        let threads: Vec<_> = configs
            .iter()
            .enumerate()
            .map(|(m, config)| {
                let ready = &ready;
                scope.spawn(move || {
                    set_unit(case);
                    let mut manager = managed(config);
                    ready.wait();
                    ops.iter()
                        .enumerate()
                        .filter(|(_, op)| op["m"].as_u64().unwrap() as usize == m + 1)
                        .map(|(k, op)| (k, operate(&mut manager, op)))
                        .collect::<Vec<(usize, Value)>>()
                })
            })
            .collect();
        for thread in threads {
            for (k, step) in thread.join().unwrap_or_else(|e| std::panic::resume_unwind(e)) {
                steps[k] = step;
            }
        }
    });
    json!({"steps": steps})
}

fn printed(manager: &PerceptionEvaluationManager) -> Vec<String> {
    manager.frame_results.iter().map(|f| format!("{f:?}")).collect()
}

/// Adds a frame; the indices of the record are those of the inputs.
pub fn add(manager: &mut PerceptionEvaluationManager, ests: &[DynamicObject], gt: &FrameGroundTruth, base: i64) -> Value {
    let before = printed(manager);
    let got = catch_unwind(AssertUnwindSafe(|| manager.add_frame_result(ests, gt)));
    let after = printed(manager);
    json!({
        "op": "add",
        "st": match &got {
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        },
        "same": after.len() >= before.len() && before.iter().zip(after.iter()).all(|(a, b)| a == b),
        "len": after.len(),
        "fr": match manager.frame_results.last() {
            Some(f) => frame_obs(f, ests, &gt.objects, base),
            None => json!({"res": [], "tp": [], "fp": [], "fn": [], "gt": [], "gtt": 0}),
        },
    })
}

pub fn query(manager: &PerceptionEvaluationManager) -> Value {
    let before = printed(manager);
    let got = catch_unwind(AssertUnwindSafe(|| {
        manager.get_metrics_score().map(|s| (format!("{s}"), format!("{s:?}")))
    }));
    let mut step = json!({
        "op": "query",
        "st": match &got {
            Ok(Ok(_)) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        },
        "len": manager.frame_results.len(),
        "same": before == printed(manager),
    });
    if let Ok(Ok((text, debug))) = got {
        step["text"] = json!(text);
        step["debug"] = json!(debug);
    }
    step
}

pub fn lookup(case: &Value) -> Value {
    // times are microseconds relative to a base in seconds
    let base = case["base"].as_i64().unwrap() * 1_000_000;
    let frames: Vec<FrameGroundTruth> = case["ts"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let pool = objects(&case["objs"]);
            let n = case["ns"][i].as_u64().unwrap() as usize;
            let mut objs: Vec<DynamicObject> = pool.into_iter().cycle().take(n).collect();
            objs.iter_mut().for_each(|o| o.uuid = Some(format!("f{i}")));
            let seconds = case["ss"][i].as_i64().unwrap_or(0);
            FrameGroundTruth { timestamp: micros(base + seconds * 1_000_000 + t.as_i64().unwrap()), objects: objs }
        })
        .collect();
    let at = micros(base + case["at"].as_i64().unwrap());
    let ident = |got: &Option<FrameGroundTruth>| match got {
        None => -1,
        Some(f) => frames
            .iter()
            .position(|x| {
                x.timestamp == f.timestamp
                    && x.objects.len() == f.objects.len()
                    && x.objects.iter().zip(f.objects.iter()).all(|(a, b)| same(a, b))
            })
            .map(|i| i as i64 + 1)
            .unwrap_or(-2),
    };
    let a = ident(&get_current_frame(&frames, &at));
    let config = PerceptionEvaluationConfig {
        version: "v".to_string(),
        dataset_path: PathBuf::from("."),
        evaluation_task: EvaluationTask::Detection,
        frame_id: FrameID::BaseLink,
        result_dir: PathBuf::from("."),
        log_dir: PathBuf::from("."),
        viz_dir: PathBuf::from("."),
        filter_params: FilterParams::new(&vec!["car"], 1.0, 1.0, None, None).unwrap(),
        metrics_params: MetricsParams::new(&vec!["car"], 1.0, 1.0, 0.5, 0.5).unwrap(),
        load_raw_data: false,
    };
    let manager = PerceptionEvaluationManager {
        config: &config,
        frame_ground_truths: frames.clone(),
        frame_results: Vec::new(),
    };
    let b = ident(&manager.get_frame_ground_truth(&at));
    json!({"got": a, "via": b})
}
