//! Dataset records, datasets and point clouds.
use crate::geom::matrix;
use crate::obj::*;
use chrono::NaiveDateTime;
use perception_eval::{
    dataset::{
        load_dataset, FrameGroundTruth,
        nuscenes::{r#box::NuScenesBox, schema::*, LoadedSampleData, NuScenes},
    },
    evaluation_task::EvaluationTask,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::Cell;
use std::convert::TryFrom;
use std::fmt::Debug;
use crate::place::placed;
use std::path::PathBuf;

/// Days, seconds and microseconds: all fit the integers of TLC.
fn time(t: &NaiveDateTime) -> Vec<i64> {
    let ns = t.timestamp_subsec_nanos() as i64;
    let s = t.timestamp();
    if ns % 1000 != 0 {
        return vec![-1, -1, ns];
    }
    vec![s.div_euclid(86_400), s.rem_euclid(86_400), ns / 1000]
}

fn opt<T: ToString>(t: &Option<T>) -> String {
    t.as_ref().map(|x| x.to_string()).unwrap_or_default()
}

fn round<T>(text: &str, fields: impl Fn(&T) -> Value) -> Value
where
    T: DeserializeOwned + Serialize + Debug,
{
    let first: T = match serde_json::from_str(text) {
        Ok(x) => x,
        Err(_) => return json!({"st": "err"}),
    };
    let written = serde_json::to_string(&first).unwrap();
    let fields_first = fields(&first);
    match serde_json::from_str::<T>(&written) {
        Err(_) => json!({"st": "ok", "f": fields_first, "back": false}),
        Ok(second) => json!({
            "st": "ok",
            "back": format!("{first:?}") == format!("{second:?}")
                && serde_json::to_string(&second).unwrap() == written
                && fields(&second) == fields_first,
            "f": fields_first,
        }),
    }
}

/// Numbers as eighths, or as decimals when the field was written so.
fn nums(v: &[f64]) -> Vec<Value> {
    DECIMALS.with(|d| {
        v.iter().map(|x| if d.get() { json!(format!("{x:.10}")) } else { json!(int(x * 8.0)) }).collect()
    })
}

thread_local! {
    static DECIMALS: Cell<bool> = Cell::new(false);
}

/// Tokens parsed from text, as displayed.
pub fn tokens(case: &Value) -> Value {
    let list: Vec<&str> = case["texts"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let long: Vec<String> = list
        .iter()
        .map(|t| LongToken::try_from(*t).map(|x| x.to_string()).unwrap_or("error".to_string()))
        .collect();
    let short: Vec<String> = list
        .iter()
        .map(|t| ShortToken::try_from(*t).map(|x| x.to_string()).unwrap_or("error".to_string()))
        .collect();
    json!({"long": long, "short": short})
}

pub fn record(case: &Value) -> Value {
    DECIMALS.with(|d| d.set(case["dec"].as_bool().unwrap_or(false)));
    let text = case["text"].as_str().unwrap();
    match case["table"].as_str().unwrap() {
        "attribute" => round::<Attribute>(text, |r| {
            json!({"token": r.token.to_string(), "name": r.name, "description": r.description})
        }),
        "calibrated_sensor" => round::<CalibratedSensor>(text, |r| {
            json!({"token": r.token.to_string(), "sensor_token": r.sensor_token.to_string(),
                   "rotation": nums(&r.rotation), "translation": nums(&r.translation),
                   "camera_intrinsic": r.camera_intrinsic.map(|m| m.iter().flat_map(|x| nums(x)).collect::<Vec<Value>>()).unwrap_or_default()})
        }),
        "category" => round::<Category>(text, |r| {
            json!({"token": r.token.to_string(), "name": r.name, "description": r.description})
        }),
        "ego_pose" => round::<EgoPose>(text, |r| {
            json!({"token": r.token.to_string(), "timestamp": time(&r.timestamp),
                   "rotation": nums(&r.rotation), "translation": nums(&r.translation)})
        }),
        "instance" => round::<Instance>(text, |r| {
            json!({"token": r.token.to_string(), "nbr_annotations": r.nbr_annotations,
                   "category_token": r.category_token.to_string(),
                   "first_annotation_token": r.first_annotation_token.to_string(),
                   "last_annotation_token": r.last_annotation_token.to_string()})
        }),
        "log" => round::<Log>(text, |r| {
            json!({"token": r.token.to_string(), "location": r.location, "vehicle": r.vehicle,
                   "date_captured": opt(&r.date_captured),
                   "logfile": r.logfile.as_ref().map(|p| p.to_str().unwrap().to_string()).unwrap_or("(none)".to_string())})
        }),
        "map" => round::<Map>(text, |r| {
            json!({"token": r.token.to_string(), "category": r.category,
                   "filename": r.filename.to_str().unwrap(),
                   "log_tokens": r.log_tokens.iter().map(|t| t.to_string()).collect::<Vec<_>>()})
        }),
        "sample" => round::<Sample>(text, |r| {
            json!({"token": r.token.to_string(), "next": opt(&r.next), "prev": opt(&r.prev),
                   "scene_token": r.scene_token.to_string(), "timestamp": time(&r.timestamp)})
        }),
        "sample_annotation" => round::<SampleAnnotation>(text, |r| {
            json!({"token": r.token.to_string(), "num_lidar_pts": r.num_lidar_pts, "num_radar_pts": r.num_radar_pts,
                   "size": nums(&r.size), "rotation": nums(&r.rotation), "translation": nums(&r.translation),
                   "sample_token": r.sample_token.to_string(), "instance_token": r.instance_token.to_string(),
                   "attribute_tokens": r.attribute_tokens.iter().map(|t| t.to_string()).collect::<Vec<_>>(),
                   "visibility_token": r.visibility_token.clone().unwrap_or("(none)".to_string()),
                   "next": opt(&r.next), "prev": opt(&r.prev)})
        }),
        "sample_data" => round::<SampleData>(text, |r| {
            json!({"token": r.token.to_string(), "fileformat": format!("{:?}", r.fileformat),
                   "is_key_frame": r.is_key_frame, "filename": r.filename.to_str().unwrap(),
                   "timestamp": time(&r.timestamp), "sample_token": r.sample_token.to_string(),
                   "ego_pose_token": r.ego_pose_token.to_string(),
                   "calibrated_sensor_token": r.calibrated_sensor_token.to_string(),
                   "next": opt(&r.next), "prev": opt(&r.prev)})
        }),
        "scene" => round::<Scene>(text, |r| {
            json!({"token": r.token.to_string(), "name": r.name, "description": r.description,
                   "log_token": r.log_token.to_string(), "nbr_samples": r.nbr_samples,
                   "first_sample_token": r.first_sample_token.to_string(),
                   "last_sample_token": r.last_sample_token.to_string()})
        }),
        "sensor" => round::<Sensor>(text, |r| {
            json!({"token": r.token.to_string(), "modality": format!("{:?}", r.modality),
                   "channel": format!("{:?}", r.channel)})
        }),
        "visibility" => round::<Visibility>(text, |r| {
            json!({"token": r.token, "level": format!("{:?}", r.level), "description": r.description})
        }),
        other => panic!("harness: table {other}"),
    }
}

/// Tokens of generated datasets hold the decimal number of their record: at the end, the start or in
/// the middle of two repeated letters.
fn num(t: &impl ToString) -> i64 {
    let t = t.to_string();
    for at in [24, 0, 11] {
        if t.len() == 32 && t.is_ascii() {
            let rest = format!("{}{}", &t[..at], &t[at + 8..]);
            if rest == rest[..2].repeat(12) {
                return t[at..at + 8].parse().unwrap_or(-3);
            }
        }
    }
    -3
}

fn nopt<T: ToString>(t: Option<T>) -> i64 {
    t.map(|x| num(&x)).unwrap_or(0)
}

/// Positions of the boxes: ten thousandths of lattice units.
fn pose(position: &[f64; 3], orientation: &[f64; 4], size: &[f64; 3]) -> Value {
    let m = matrix(orientation);
    json!({
        "p": position.iter().map(|x| int(x / unit() * 10000.0)).collect::<Vec<_>>(),
        "r": m.iter().flat_map(|r| r.iter().map(|x| int(x * 10000.0)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "n": int(orientation.iter().map(|x| x * x).sum::<f64>() * 10000.0),
        "s": size.iter().map(|x| int(x / unit() * 100.0)).collect::<Vec<_>>(),
    })
}

fn boxes(list: &[NuScenesBox]) -> Vec<Value> {
    list.iter()
        .map(|b| {
            let mut v = pose(&b.position, &b.orientation, &b.size);
            v["name"] = json!(b.name);
            v["inst"] = json!(num(&b.instance));
            v["pts"] = json!(b.num_lidar_pts);
            v["tok"] = json!(num(&b.token));
            v
        })
        .collect()
}

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Tokens in the order in which each table is iterated.
fn iterated(nusc: &NuScenes) -> Value {
    let mut it = json!({});
    macro_rules! tokens {
        ($name:expr, $iter:expr) => {
            it[$name] = json!($iter.map(|r| num(&r.token)).collect::<Vec<i64>>())
        };
    }
    tokens!("attribute", nusc.attribute_iter());
    tokens!("cs", nusc.calibrated_sensor_iter());
    tokens!("category", nusc.category_iter());
    tokens!("ego", nusc.ego_pose_iter());
    tokens!("instance", nusc.instance_iter());
    tokens!("log", nusc.log_iter());
    tokens!("map", nusc.map_iter());
    tokens!("sample", nusc.sample_iter());
    tokens!("ann", nusc.sample_annotation_iter());
    tokens!("sd", nusc.sample_data_iter());
    tokens!("scene", nusc.scene_iter());
    tokens!("sensor", nusc.sensor_iter());
    it["visibility"] = json!(nusc
        .visibility_iter()
        .map(|v| v.token.parse::<i64>().unwrap_or(-3))
        .collect::<Vec<_>>());
    it
}

fn links_of(nusc: &NuScenes, base: i64, maplogs: bool) -> Value {
    let strvis = |t: &Option<String>| t.as_ref().map(|t| t.parse::<i64>().unwrap_or(-3)).unwrap_or(0);
    let mut links = json!({});
    links["sample"] = json!(nusc
        .sample_iter()
        .map(|s| json!({
            "t": num(&s.token), "prev": nopt(s.prev().map(|x| x.token.clone())),
            "next": nopt(s.next().map(|x| x.token.clone())), "scene": num(&s.scene().token),
            "ts": since(&s.timestamp, base * 1_000_000),
            "anns": s.sample_annotation_iter().map(|a| num(&a.token)).collect::<Vec<_>>(),
            "sds": s.sample_data_iter().map(|a| num(&a.token)).collect::<Vec<_>>(),
        }))
        .collect::<Vec<_>>());
    links["ann"] = json!(nusc
        .sample_annotation_iter()
        .map(|a| json!({
            "t": num(&a.token), "prev": nopt(a.prev().map(|x| x.token.clone())),
            "next": nopt(a.next().map(|x| x.token.clone())), "sample": num(&a.sample().token),
            "inst": num(&a.instance().token),
            "attrs": a.attribute_iter().map(|x| num(&x.token)).collect::<Vec<_>>(),
            "vis": strvis(&a.visibility_token), "pts": a.num_lidar_pts,
        }))
        .collect::<Vec<_>>());
    links["sd"] = json!(nusc
        .sample_data_iter()
        .map(|d| json!({
            "t": num(&d.token), "prev": nopt(d.prev().map(|x| x.token.clone())),
            "next": nopt(d.next().map(|x| x.token.clone())), "sample": num(&d.sample().token),
            "ego": num(&d.ego_pose().token), "cs": num(&d.calibrated_sensor().token),
            "sensor": num(&d.calibrated_sensor().sensor().token), "key": d.is_key_frame,
        }))
        .collect::<Vec<_>>());
    links["instance"] = json!(nusc
        .instance_iter()
        .map(|i| json!({
            "t": num(&i.token), "cat": num(&i.category().token), "name": i.category().name,
            "anns": i.sample_annotation_iter().map(|a| num(&a.token)).collect::<Vec<_>>(),
        }))
        .collect::<Vec<_>>());
    links["scene"] = json!(nusc
        .scene_iter()
        .map(|s| json!({
            "t": num(&s.token), "log": num(&s.log().token),
            "samples": s.sample_iter().map(|x| num(&x.token)).collect::<Vec<_>>(),
        }))
        .collect::<Vec<_>>());
    links["log"] = json!(nusc
        .log_iter()
        .map(|l| json!({
            "t": num(&l.token),
            "open": match l.open() {
                Ok(None) => "none".to_string(),
                Err(_) => "err".to_string(),
                Ok(Some(f)) => std::io::read_to_string(f).unwrap_or("?".to_string()),
            },
        }))
        .collect::<Vec<_>>());
    links["cs"] = json!(nusc
        .calibrated_sensor_iter()
        .map(|c| json!({"t": num(&c.token), "sensor": num(&c.sensor().token)}))
        .collect::<Vec<_>>());
    links["map"] = json!(nusc
        .map_iter()
        .map(|m| json!({
            "t": num(&m.token),
            "logs": if maplogs {
                m.log_iter().map(|l| num(&l.token)).collect::<Vec<_>>()
            } else {
                Vec::new()
            },
        }))
        .collect::<Vec<_>>());
    links
}

/// Positions on the map are recorded relative to where the case was put.
fn here_of(g: Vec<NuScenesBox>, at: &[f64]) -> Vec<NuScenesBox> {
    g.into_iter()
        .map(|mut b| {
            b.position.iter_mut().zip(at).for_each(|(x, a)| *x -= a * 0.25);
            b
        })
        .collect()
}

fn raw_of(nusc: &NuScenes, dir: &PathBuf, at: &[f64]) -> Vec<Value> {
    let here = |g: Vec<NuScenesBox>| here_of(g, at);
    nusc
        .sample_data_iter()
        .map(|d| {
            let ego = nusc.get_sample_data(&d.token, &false);
            let sensor = nusc.get_sample_data(&d.token, &true);
            let global = nusc.get_boxes(&d.token).map(here);
            let alone = nusc.get_sample_data_path(&d.token).ok();
            match (ego, sensor, global) {
                (Ok((path, e)), Ok((path2, s)), Ok(g)) => json!({
                    "t": num(&d.token), "st": "ok",
                    "path": path == dir.join(&d.filename) && path2 == path && alone == Some(path),
                    "ego": boxes(&e), "sensor": boxes(&s), "global": boxes(&g),
                }),
                _ => json!({"t": num(&d.token), "st": "err", "path": false, "ego": [], "sensor": [], "global": []}),
            }
        })
        .collect()
}

fn frames_of(case: &Value, version: &str, dir: &PathBuf) -> Value {
    let base = case["base"].as_i64().unwrap() * 1_000_000;
    let got = caught(|| {
        load_dataset(version, dir, &EvaluationTask::Detection, &frame(case["frame"].as_str().unwrap()))
    });
    match got {
        None => json!({"st": "panic", "list": []}),
        Some(Err(_)) => json!({"st": "err", "list": []}),
        Some(Ok(fs)) => json!({"st": "ok", "list": truth(&fs, base)}),
    }
}

/// Ground-truth frames; times are relative to a base (microseconds).
pub fn truth(frames: &[FrameGroundTruth], base: i64) -> Vec<Value> {
    frames
        .iter()
        .map(|f| json!({
            "ts": since(&f.timestamp, base),
            "objs": f.objects.iter().map(|o| {
                let mut v = pose(&o.position, &o.orientation, &o.size);
                v["l"] = json!(label_name(&o.label));
                v["pts"] = json!(o.pointcloud_num.map(|x| x as i64).unwrap_or(-1));
                v["inst"] = json!(o.uuid.as_ref().map(num).unwrap_or(0));
                v["conf"] = json!(int(o.confidence * 1000.0));
                v["f"] = json!(frame_name(&o.frame_id));
                v["ts"] = json!(since(&o.timestamp, base));
                v["vel"] = json!(o.velocity.is_some());
                v
            }).collect::<Vec<_>>(),
        }))
        .collect()
}

/// Earlier content of the place is loaded first.
fn after(case: &Value, load: impl Fn(&Value, PathBuf) -> Value) -> Value {
    for earlier in case["before"].as_array().unwrap_or(&Vec::new()) {
        placed(earlier["dir"].as_str().unwrap(), &case["place"], |dir| load(earlier, PathBuf::from(dir)));
    }
    placed(case["dir"].as_str().unwrap(), &case["place"], |dir| load(case, PathBuf::from(dir)))
}

pub fn dataset(case: &Value) -> Value {
    after(case, dataset_at)
}

fn dataset_at(case: &Value, dir: PathBuf) -> Value {
    let version = case["version"].as_str().unwrap();
    let frames = frames_of(case, version, &dir);
    let nusc = match caught(|| NuScenes::load(version, &dir)) {
        None => return json!({"load": "panic", "frames": frames}),
        Some(Err(_)) => return json!({"load": "err", "frames": frames}),
        Some(Ok(n)) => n,
    };
    let it = caught(|| iterated(&nusc)).unwrap_or(json!({"st": "panic"}));
    if case["deep"].as_bool() != Some(true) {
        return json!({"load": "ok", "it": it, "frames": frames});
    }
    let links = caught(|| {
        links_of(&nusc, case["base"].as_i64().unwrap(), case["maplogs"].as_bool().unwrap())
    });
    let at: Vec<f64> = case["at"].as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).collect()).unwrap_or(vec![0.0; 3]);
    let raw = caught(|| raw_of(&nusc, &dir, &at));
    let single = caught(|| {
        let list = nusc.sample_annotation_iter().map(|a| nusc.get_box(&a.token)).collect::<Result<Vec<_>, _>>();
        list.map(|g| boxes(&here_of(g, &at))).ok()
    });
    let single = single.flatten().map(|b| json!({"st": "ok", "list": b})).unwrap_or(json!({"st": "err", "list": []}));
    json!({
        "load": "ok", "it": it, "frames": frames,
        "where": nusc.version() == version && nusc.dir() == dir,
        "sts": if links.is_some() { "ok" } else { "panic" },
        "stb": if raw.is_some() { "ok" } else { "panic" },
        "links": links, "raw": raw, "single": single,
    })
}

/// Longer files are recorded by their first bytes and how far these repeat.
const LONG: usize = 12_000;

fn period<T: PartialEq>(x: &[T], n: usize) -> usize {
    (0..x.len()).take_while(|k| x[*k] == x[*k % n]).count()
}

pub fn cloud(case: &Value) -> Value {
    after(case, cloud_at)
}

/// Four times the value, where that is a moderate integer.
fn quarters(x: f32) -> i64 {
    let x = x as f64 * 4.0;
    if x.fract() == 0.0 && x.abs() < 1e9 { x as i64 } else { i32::MIN as i64 + 1 }
}

fn cloud_at(case: &Value, dir: PathBuf) -> Value {
    let nusc = NuScenes::load(case["version"].as_str().unwrap(), &dir)
        .unwrap_or_else(|e| panic!("harness: cloud dataset: {e}"));
    let out: Vec<Value> = nusc
        .sample_data_iter()
        .map(|d| {
            let raw = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.load_raw()));
            let raw = match raw {
                Err(_) => json!({"st": "panic", "bytes": []}),
                Ok(Err(_)) => json!({"st": "err", "bytes": []}),
                Ok(Ok(b)) if b.len() <= LONG => json!({"st": "ok", "bytes": b}),
                Ok(Ok(b)) => json!({"st": "ok", "bytes": b[..LONG], "len": b.len(), "period": period(&b, LONG)}),
            };
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.load()));
            let cloud = match got {
                Err(_) => json!({"st": "panic", "rows": []}),
                Ok(Err(_)) => json!({"st": "err", "rows": []}),
                Ok(Ok(LoadedSampleData::PointCloud(m))) => {
                    let rows: Vec<Vec<i64>> = (0..m.nrows())
                        .map(|i| (0..m.ncols()).map(|j| quarters(m[(i, j)])).collect())
                        .collect();
                    let bits: Vec<u8> = (0..m.nrows().min(LONG / 20))
                        .flat_map(|i| (0..m.ncols()).map(|j| m[(i, j)].to_bits().to_le_bytes()).collect::<Vec<_>>())
                        .flatten()
                        .collect();
                    match rows.len() {
                        n if n <= LONG / 20 => json!({"st": "ok", "rows": rows, "bits": bits}),
                        n => json!({"st": "ok", "rows": rows[..LONG / 20], "len": n, "period": period(&rows, LONG / 20)}),
                    }
                }
                Ok(Ok(LoadedSampleData::Image(i))) => {
                    let depth = (i.color().bits_per_pixel() / i.color().channel_count() as u16) as u32;
                    let mut img = vec![i.width(), i.height(), i.color().channel_count() as u32, depth];
                    match depth {
                        16 => img.extend(i.as_bytes().chunks(2).map(|x| u16::from_ne_bytes([x[0], x[1]]) as u32)),
                        _ => img.extend(i.as_bytes().iter().map(|x| *x as u32)),
                    }
                    json!({"st": "image", "img": img})
                }
            };
            json!({"t": num(&d.token), "raw": raw, "cloud": cloud, "open": d.open().is_ok()})
        })
        .collect();
    json!({"out": out})
}
