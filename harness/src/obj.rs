//! Abstract objects of the cases (integers) and their concrete counterparts.
use chrono::NaiveDateTime;
use perception_eval::{
    frame_id::FrameID, label::Label, object::object3d::DynamicObject, result::object::PerceptionResult,
};
use serde_json::Value;
use std::cell::Cell;

thread_local! {
    static PER_METRE: Cell<f64> = Cell::new(4.0);
    static RANKS: Cell<i64> = Cell::new(0);
}

/// Length of the lattice unit in metres, chosen by the case.
pub fn unit() -> f64 {
    1.0 / PER_METRE.with(|u| u.get())
}

/// Lattice units in metres: the number nearest to k/den, as its decimal notation reads.
/// The largest stand for infinite lengths.
pub fn metres(k: i64) -> f64 {
    if k.abs() >= 1 << 30 {
        return k as f64 * f64::INFINITY;
    }
    k as f64 / PER_METRE.with(|u| u.get())
}

pub fn set_unit(case: &Value) {
    PER_METRE.with(|u| {
        u.set(match case["u"].as_i64().unwrap_or(-2) {
            den if den > 1000 => (den - 1000) as f64,
            100 => 10.0, // no binary fraction
            101 => 3.0,
            e => 2f64.powi(-e as i32),
        })
    });
    RANKS.with(|r| r.set(case["cs"].as_i64().unwrap_or(0)));
}

/// Confidences: an increasing function of the number in the case, which the case chooses.
fn confidence(c: i64) -> f64 {
    let c = c as f64;
    match RANKS.with(|r| r.get()) {
        0 => c / 1000.0,
        1 => 0.5 + c * 2f64.powi(-40),
        2 => c,
        3 => (c - 500.0) / 1000.0,
        _ => 1.0 - (1000.0 - c) * 1e-9,
    }
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array()
        .unwrap_or_else(|| panic!("harness: not a list: {v}"))
        .iter()
        .map(|x| x.as_i64().unwrap_or_else(|| panic!("harness: not an integer: {x}")))
        .collect()
}

pub fn arr3(v: &Value) -> [f64; 3] {
    let v = ints(v);
    [metres(v[0]), metres(v[1]), metres(v[2])]
}

/// Unit quaternion along integer components; exact if all but one of them are 0.
pub fn quat(v: &Value) -> [f64; 4] {
    let v = ints(v);
    let n: i64 = v.iter().map(|x| x * x).sum();
    let s = (n as f64).sqrt();
    [v[0] as f64 / s, v[1] as f64 / s, v[2] as f64 / s, v[3] as f64 / s]
}

/// Labels are chosen here and not parsed by the crate: its parser is itself under test.
pub fn label(name: &str) -> Label {
    match name {
        "Unknown" => Label::Unknown,
        "Car" => Label::Car,
        "Truck" => Label::Truck,
        "Bus" => Label::Bus,
        "Bicycle" => Label::Bicycle,
        "Motorbike" => Label::Motorbike,
        "Pedestrian" => Label::Pedestrian,
        "Animal" => Label::Animal,
        _ => panic!("harness: label {name}"),
    }
}

pub fn label_name(label: &Label) -> &'static str {
    match label {
        Label::Unknown => "Unknown",
        Label::Car => "Car",
        Label::Truck => "Truck",
        Label::Bus => "Bus",
        Label::Bicycle => "Bicycle",
        Label::Motorbike => "Motorbike",
        Label::Pedestrian => "Pedestrian",
        Label::Animal => "Animal",
    }
}

pub fn frame(name: &str) -> FrameID {
    match name {
        "BaseLink" => FrameID::BaseLink,
        "Map" => FrameID::Map,
        "CamBack" => FrameID::CamBack,
        "CamBackLeft" => FrameID::CamBackLeft,
        "CamBackRight" => FrameID::CamBackRight,
        "CamFront" => FrameID::CamFront,
        "CamFrontLeft" => FrameID::CamFrontLeft,
        "CamFrontRight" => FrameID::CamFrontRight,
        "CamTrafficLightNear" => FrameID::CamTrafficLightNear,
        "CamTrafficLightFar" => FrameID::CamTrafficLightFar,
        _ => panic!("harness: frame {name}"),
    }
}

pub fn frame_name(frame: &FrameID) -> &'static str {
    match frame {
        FrameID::BaseLink => "BaseLink",
        FrameID::Map => "Map",
        FrameID::CamBack => "CamBack",
        FrameID::CamBackLeft => "CamBackLeft",
        FrameID::CamBackRight => "CamBackRight",
        FrameID::CamFront => "CamFront",
        FrameID::CamFrontLeft => "CamFrontLeft",
        FrameID::CamFrontRight => "CamFrontRight",
        FrameID::CamTrafficLightNear => "CamTrafficLightNear",
        FrameID::CamTrafficLightFar => "CamTrafficLightFar",
    }
}

pub fn labels(v: &Value) -> Vec<Label> {
    v.as_array().unwrap().iter().map(|x| label(x.as_str().unwrap())).collect()
}

pub fn micros(t: i64) -> NaiveDateTime {
    NaiveDateTime::from_timestamp_micros(t).unwrap()
}

/// IDs are written as they are, but for the empty one.
pub fn id_text(id: &str) -> String {
    if id == "<>" { String::new() } else { id.to_string() }
}

/// Rolled and pitched (degrees), then turned by twice the angle `half`.
fn tilted(half: f64, pitch: i64, roll: i64) -> [f64; 4] {
    let of = |degrees: i64| (degrees as f64 * std::f64::consts::PI / 360.0).sin_cos();
    let ((sy, cy), (sp, cp), (sr, cr)) = (half.sin_cos(), of(pitch), of(roll));
    [
        cr * cp * cy + sr * sp * sy,
        sr * cp * cy - cr * sp * sy,
        cr * sp * cy + sr * cp * sy,
        cr * cp * sy - sr * sp * cy,
    ]
}

pub fn object(v: &Value) -> DynamicObject {
    let h = v["h"].as_i64().unwrap();
    let q = ints(&v["q"]);
    let half = if h >= 1000 {
        (h - 1000) as f64 * std::f64::consts::PI / 3600.0
    } else {
        h as f64 * std::f64::consts::PI / 24.0
    };
    let orientation = if h < 0 {
        quat(&v["q"])
    } else if q[0] == 2 {
        tilted(half, q[1], q[2])
    } else {
        [half.cos(), 0.0, 0.0, half.sin()]
    };
    let velocity = ints(&v["v"]);
    let id = v["id"].as_str().unwrap();
    let n = v["n"].as_i64().unwrap();
    DynamicObject {
        timestamp: micros(v["t"].as_i64().unwrap()),
        frame_id: frame(v["f"].as_str().unwrap()),
        position: arr3(&v["p"]),
        orientation,
        size: arr3(&v["s"]),
        velocity: match velocity.len() {
            3 => Some([0, 1, 2].map(|k| velocity[k] as f64 / 2.0)),
            _ => None,
        },
        confidence: confidence(v["c"].as_i64().unwrap()),
        label: label(v["l"].as_str().unwrap()),
        pointcloud_num: if n < 0 { None } else { Some(n as usize) },
        uuid: if id.is_empty() { None } else { Some(id_text(id)) },
    }
}

pub fn objects(v: &Value) -> Vec<DynamicObject> {
    v.as_array().unwrap().iter().map(object).collect()
}

/// Equality of every field.
pub fn same(a: &DynamicObject, b: &DynamicObject) -> bool {
    a.timestamp == b.timestamp
        && a.frame_id == b.frame_id
        && a.position == b.position
        && a.orientation == b.orientation
        && a.size == b.size
        && a.velocity == b.velocity
        && a.confidence == b.confidence
        && a.label == b.label
        && a.pointcloud_num == b.pointcloud_num
        && a.uuid == b.uuid
}

/// Indices (1-based) of the objects in a list of inputs: an input not used yet, else any
/// equal input; -2 if there is none.
pub struct Finder<'a> {
    pool: &'a [DynamicObject],
    used: Vec<bool>,
}

impl<'a> Finder<'a> {
    pub fn new(pool: &'a [DynamicObject]) -> Self {
        Finder { pool, used: vec![false; pool.len()] }
    }
    pub fn find(&mut self, x: &DynamicObject) -> i64 {
        let mut any = -2;
        for (i, o) in self.pool.iter().enumerate() {
            if same(o, x) {
                if !self.used[i] {
                    self.used[i] = true;
                    return i as i64 + 1;
                }
                if any < 0 {
                    any = i as i64 + 1;
                }
            }
        }
        any
    }
}

pub fn same_result(a: &PerceptionResult, b: &PerceptionResult) -> bool {
    same(&a.estimated_object, &b.estimated_object)
        && match (&a.ground_truth_object, &b.ground_truth_object) {
            (None, None) => true,
            (Some(x), Some(y)) => same(x, y),
            _ => false,
        }
}

/// Positions (1-based) of results in a list of results, as in `Finder`.
pub fn positions(list: &[PerceptionResult], of: &[PerceptionResult]) -> Vec<i64> {
    let mut used = vec![false; list.len()];
    of.iter()
        .map(|r| {
            let mut any = -2;
            for (i, o) in list.iter().enumerate() {
                if same_result(o, r) {
                    if !used[i] {
                        used[i] = true;
                        return i as i64 + 1;
                    }
                    if any < 0 {
                        any = i as i64 + 1;
                    }
                }
            }
            any
        })
        .collect()
}

pub fn pairs(
    results: &[PerceptionResult],
    ests: &[DynamicObject],
    gts: &[DynamicObject],
) -> Vec<Vec<i64>> {
    let mut fe = Finder::new(ests);
    let mut fg = Finder::new(gts);
    results
        .iter()
        .map(|r| {
            vec![
                fe.find(&r.estimated_object),
                match &r.ground_truth_object {
                    None => -1,
                    Some(g) => fg.find(g),
                },
            ]
        })
        .collect()
}

pub fn indices(list: &[DynamicObject], pool: &[DynamicObject]) -> Vec<i64> {
    let mut f = Finder::new(pool);
    list.iter().map(|x| f.find(x)).collect()
}

/// A finite number as an integer; what is not finite or too large is recorded as such.
pub fn int(x: f64) -> i64 {
    if x.is_nan() {
        2_000_000_001
    } else if x > 2e9 {
        2_000_000_000
    } else if x < -2e9 {
        -2_000_000_000
    } else {
        x.round() as i64
    }
}

/// Microseconds between two times, as far as the integers of TLC reach.
pub fn since(t: &NaiveDateTime, base: i64) -> i64 {
    int(t.timestamp_micros() as f64 - base as f64)
}
