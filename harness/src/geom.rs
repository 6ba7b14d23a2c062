//! Matching scores, rigid transforms, and the shape of objects.
use crate::eval::mode;
use crate::obj::*;
use perception_eval::{
    dataset::nuscenes::{r#box::NuScenesBox, schema::LongToken},
    label::Label,
    matching::MatchingMode,
    object::object3d::DynamicObject,
    result::object::PerceptionResult,
    utils::{
        math::{
            inverse_quaternion, quaternion2euler, quaternion2rotation, rotate, rotate_inv, rotate_q,
            rotate_q_inv, translate, translate_inv,
        },
        point::{distance_points, distance_points_bev, get_point_left_right},
    },
};
use serde_json::{json, Value};
use std::convert::TryFrom;

/// Scores are not part of the public API: the score of a pair is recovered exactly by
/// bisecting the threshold at which the decision of `is_result_correct` flips.
fn recover(a: &DynamicObject, b: &DynamicObject, m: &MatchingMode) -> f64 {
    let result = PerceptionResult::new(a.clone(), Some(b.clone()));
    let correct = |t: f64| result.is_result_correct(m, &t).unwrap();
    let distance = matches!(m, MatchingMode::CenterDistance | MatchingMode::PlaneDistance);
    // above(t): is the score > t (overlap) or >= t (distance)?
    let above = |t: f64| if distance { !correct(t) } else { correct(t) };
    if distance {
        if !above(0.0) {
            return f64::NEG_INFINITY;
        }
        let (mut lo, mut hi) = (0u64, 1e9f64.to_bits());
        if above(1e9) {
            return f64::INFINITY;
        }
        // largest t with score >= t
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            if above(f64::from_bits(mid)) {
                lo = mid
            } else {
                hi = mid
            }
        }
        f64::from_bits(lo)
    } else {
        if !above(-1e-9) {
            return f64::NEG_INFINITY;
        }
        if !above(0.0) {
            return 0.0;
        }
        if above(1e9) {
            return f64::INFINITY;
        }
        // smallest t with not score > t
        let (mut lo, mut hi) = (0u64, 1e9f64.to_bits());
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            if above(f64::from_bits(mid)) {
                lo = mid
            } else {
                hi = mid
            }
        }
        f64::from_bits(hi)
    }
}

fn size(v: &Value) -> (f64, f64) {
    let s = ints(&v["s"]);
    ((s[0] * s[1]) as f64, (s[0] * s[1] * s[2]) as f64)
}

/// Distances as 100 times the squared score in lattice units (doubled for the plane
/// distance); overlaps as the intersection they imply, in thousandths of lattice units,
/// and in millionths.
fn score_obs(va: &Value, vb: &Value, a: &DynamicObject, b: &DynamicObject) -> Value {
    let c = recover(a, b, &mode("center"));
    let p = recover(a, b, &mode("plane"));
    let i2 = recover(a, b, &mode("iou2d"));
    let i3 = recover(a, b, &mode("iou3d"));
    let ((aa, va3), (ab, vb3)) = (size(va), size(vb));
    json!({
        "c": int(100.0 * (c / unit()) * (c / unit()) * c.signum()),
        "p": int(200.0 * (p / unit()) * (p / unit()) * p.signum()),
        "i2": int(1000.0 * i2 * (aa + ab) / (1.0 + i2)),
        "i3": int(1000.0 * i3 * (va3 + vb3) / (1.0 + i3)),
        "m2": int(1e6 * i2),
        "m3": int(1e6 * i3),
    })
}

pub fn score(case: &Value) -> Value {
    let (va, vb) = (&case["a"], &case["b"]);
    let a = object(va);
    let b = object(vb);
    // the same boxes under other labels, IDs, confidences and times
    let x = object(&case["ax"]);
    let y = object(&case["bx"]);
    let checks: Vec<bool> = case["thr"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            let m = t[0].as_str().unwrap();
            let thr = crate::eval::threshold(m, t[1].as_i64().unwrap());
            PerceptionResult::new(a.clone(), Some(b.clone())).is_result_correct(&mode(m), &thr).unwrap()
        })
        .collect();
    let alone: Vec<bool> = ["center", "plane", "iou2d", "iou3d"]
        .iter()
        .map(|m| PerceptionResult::new(a.clone(), None).is_result_correct(&mode(m), &-1.0).unwrap())
        .collect();
    json!({
        "ab": score_obs(va, vb, &a, &b),
        "ba": score_obs(vb, va, &b, &a),
        "aa": score_obs(va, va, &a, &a),
        "xy": score_obs(va, vb, &x, &y),
        "checks": checks,
        "alone": alone,
        "lr": sides(&a.position, &b.position),
        "rl": sides(&b.position, &a.position),
    })
}

/// Which of two points is the left one: 1 or 2, or 0 if the points are not the given ones.
fn sides(p: &[f64; 3], q: &[f64; 3]) -> i64 {
    let (l, r) = get_point_left_right(p, q);
    if l == p && r == q {
        1
    } else if l == q && r == p {
        2
    } else {
        0
    }
}

/// Whether the state of an object is that of the same box under another label, ID, confidence and
/// time, and that of objects that differ in position, orientation, size or velocity.
fn states(o: &DynamicObject) -> Vec<bool> {
    let same = |f: &dyn Fn(&mut DynamicObject)| {
        let mut x = o.clone();
        f(&mut x);
        x.state() == o.state()
    };
    vec![
        same(&|x| {
            x.label = if x.label == Label::Car { Label::Bus } else { Label::Car };
            x.uuid = Some("other".to_string());
            x.confidence = 1.0 - x.confidence;
            x.pointcloud_num = Some(77);
            x.timestamp += chrono::Duration::microseconds(1);
        }),
        same(&|x| x.position[2] += 1.0),
        same(&|x| x.position[0] -= 0.001),
        same(&|x| x.orientation = [-x.orientation[1], x.orientation[0], -x.orientation[3], x.orientation[2]]),
        same(&|x| x.size[0] += 1.0),
        same(&|x| x.size[2] += 1.0),
        same(&|x| x.velocity = Some(x.velocity.map_or([0.0; 3], |v| [v[0], v[1] + 0.5, v[2]]))),
    ]
}

/// Scale of the coordinates of the observations of this module.
const S: f64 = 100_000.0;

fn scaled(v: &[f64]) -> Vec<i64> {
    v.iter().map(|x| int(x * S)).collect()
}

/// The rotation matrix of a quaternion, by an own implementation, row by row.
pub fn matrix(q: &[f64; 4]) -> [[f64; 3]; 3] {
    let [w, x, y, z] = *q;
    [
        [w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}

fn flat(m: &[[f64; 3]; 3]) -> Vec<i64> {
    m.iter().flat_map(|r| scaled(r)).collect()
}

fn norm(q: &[f64; 4]) -> i64 {
    int(q.iter().map(|x| x * x).sum::<f64>() * S)
}

/// Rz(yaw) Ry(pitch) Rx(roll)
fn euler_matrix(e: &[f64; 3]) -> [[f64; 3]; 3] {
    let (sr, cr) = e[0].sin_cos();
    let (sp, cp) = e[1].sin_cos();
    let (sy, cy) = e[2].sin_cos();
    [
        [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
        [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        [-sp, cp * sr, cp * cr],
    ]
}

/// The moves of a box of a dataset.
fn moved_box(v: &[f64; 3], w: &[f64; 3], q1: &[f64; 4], q2: &[f64; 4]) -> Value {
    let token = |k: char| LongToken::try_from(k.to_string().repeat(32).as_str()).unwrap();
    let make = || NuScenesBox {
        position: *v,
        orientation: *q1,
        size: [1.0, 2.0, 3.0],
        name: "car".to_string(),
        instance: token('a'),
        num_lidar_pts: 7,
        token: token('b'),
    };
    let rest = |b: &NuScenesBox| {
        b.size == [1.0, 2.0, 3.0]
            && b.name == "car"
            && b.instance.to_string() == "a".repeat(32)
            && b.num_lidar_pts == 7
            && b.token.to_string() == "b".repeat(32)
    };
    let lengths = |x: &[f64]| scaled(&x.iter().map(|x| x / unit()).collect::<Vec<f64>>());
    let obs = |b: &NuScenesBox| json!({"p": lengths(&b.position), "r": flat(&matrix(&b.orientation)), "rest": rest(b)});
    let act = |moves: &[&dyn Fn(&mut NuScenesBox)]| {
        let mut b = make();
        moves.iter().for_each(|m| m(&mut b));
        obs(&b)
    };
    let still = make();
    json!({
        "to": act(&[&|b| b.translate(w)]),
        "fro": act(&[&|b| b.translate_inv(w)]),
        "tofro": act(&[&|b| b.translate(w), &|b| b.translate_inv(w)]),
        "turn": act(&[&|b| b.rotate(q2)]),
        "unturn": act(&[&|b| b.rotate_inv(q2)]),
        "turnback": act(&[&|b| b.rotate(q2), &|b| b.rotate_inv(q2)]),
        "gto": lengths(&still.get_translate(w)),
        "gfro": lengths(&still.get_translate_inv(w)),
        "still": obs(&still),
    })
}

pub fn math(case: &Value) -> Value {
    let q1 = quat(&case["q1"]);
    let q2 = quat(&case["q2"]);
    let v = arr3(&case["v"]);
    let w = arr3(&case["w"]);
    let lengths = |x: &[f64]| scaled(&x.iter().map(|x| x / unit()).collect::<Vec<f64>>());
    let m = quaternion2rotation(&q1);
    let m = [
        [m[(0, 0)], m[(0, 1)], m[(0, 2)]],
        [m[(1, 0)], m[(1, 1)], m[(1, 2)]],
        [m[(2, 0)], m[(2, 1)], m[(2, 2)]],
    ];
    let comp = rotate_q(&q1, &q2);
    let comp_inv = rotate_q_inv(&q1, &q2);
    let inv = inverse_quaternion(&q1);
    let raw = crate::obj::ints(&case["q1"]);
    let raw = [raw[0] as f64, raw[1] as f64, raw[2] as f64, raw[3] as f64];
    json!({
        "rot": lengths(&rotate(&v, &q1)),
        "irot": lengths(&rotate_inv(&v, &q1)),
        "back": lengths(&rotate_inv(&rotate(&v, &q1), &q1)),
        "forth": lengths(&rotate(&rotate_inv(&v, &q1), &q1)),
        "mat": flat(&m),
        "inv": flat(&matrix(&inv)),
        "invn": norm(&inv),
        "rawinv": scaled(&inverse_quaternion(&raw)),
        "comp": flat(&matrix(&comp)),
        "compn": norm(&comp),
        "icomp": flat(&matrix(&comp_inv)),
        "icompn": norm(&comp_inv),
        "undo": flat(&matrix(&rotate_q_inv(&comp, &q2))),
        "redo": flat(&matrix(&rotate_q(&comp_inv, &q2))),
        "vcomp": lengths(&rotate(&v, &comp)),
        "vtwice": lengths(&rotate(&rotate(&v, &q1), &q2)),
        "add": lengths(&translate(&v, &w)),
        "sub": lengths(&translate_inv(&v, &w)),
        "addsub": lengths(&translate_inv(&translate(&v, &w), &w)),
        "euler": flat(&euler_matrix(&quaternion2euler(&q1))),
        "pitch": int(quaternion2euler(&q1)[1] * S),
        "box": moved_box(&v, &w, &q1, &q2),
        "dist": int(100.0 * (distance_points(&v, &w) / unit()).powi(2)),
        "distb": int(100.0 * (distance_points_bev(&v, &w) / unit()).powi(2)),
    })
}

/// An object: corners, angles, area, volume, distances.
pub fn shape(case: &Value) -> Value {
    let o = object(&case["o"]);
    let pt = arr3(&case["pt"]);
    let corners: Vec<Vec<i64>> = o
        .footprint()
        .iter()
        .map(|c| c.iter().map(|x| int(x / unit() * 1000.0)).collect())
        .collect();
    let e = o.euler();
    let h = o.heading();
    let m = o.rotation_matrix();
    let m = [
        [m[(0, 0)], m[(0, 1)], m[(0, 2)]],
        [m[(1, 0)], m[(1, 1)], m[(1, 2)]],
        [m[(2, 0)], m[(2, 1)], m[(2, 2)]],
    ];
    json!({
        "corners": corners,
        "mat": flat(&m),
        "euler": flat(&euler_matrix(&e)),
        "finite": e.iter().all(|x| x.is_finite()) && h.is_finite(),
        "pitch": int(e[1] * S),
        "head": int(h * S),
        "hc": int(h.cos() * 10000.0),
        "hs": int(h.sin() * 10000.0),
        "yc": int(e[2].cos() * 10000.0),
        "ys": int(e[2].sin() * 10000.0),
        "area": int(100.0 * o.area() / (unit() * unit())),
        "vol": int(100.0 * o.volume() / (unit() * unit() * unit())),
        "d": int(100.0 * (o.distance() / unit()).powi(2)),
        "db": int(100.0 * (o.distance_bev() / unit()).powi(2)),
        "df": int(100.0 * (o.distance_from(&pt) / unit()).powi(2)),
        "states": states(&o),
        "dbf": int(100.0 * (o.distance_bev_from(&pt) / unit()).powi(2)),
    })
}
