"""Scenario files (see spec/Scenario)."""
import json, math, os, random
from .gen_eval import obj, LABELS, INFINITE
from .gen_names import TASKS, FRAMES, shake
from . import report

FATAL_PARAMS = ["evaluation_task", "frame_id", "target_labels", "max_x_position", "max_y_position", "center_distance_threshold",
                "plane_distance_threshold", "iou_2d_threshold", "iou_3d_threshold"]
FATAL = (["missing", "directory", "empty", "garbled", "list", "binary", "no Evaluation", "no Datasets", "no PerceptionEvaluationConfig",
          "no evaluation_config_dict", "no Version", "empty dataset", "null datasets"] + ["no " + p for p in FATAL_PARAMS]
         + ["text " + p for p in FATAL_PARAMS[2:]] + ["text min_point_number", "text target_uuids", "negative min_point_number", "fraction min_point_number"])
MINOR = ["no ScenarioName", "no SensorModel", "no Conditions", "no VehicleId", "no LocalMapPath", "no ScenarioFormatVersion"]
NAMES = ["car", "truck", "bus", "bicycle", "motorbike", "pedestrian", "animal", "unknown", "vehicle.car", "vehicle.bus.rigid", "CAR", "Bus",
         "human.pedestrian.child", "spaceship", "trailer"]


def number(r, x):
    if abs(x) == math.inf:
        return ("-" if x < 0 else r.choice(["", "+"])) + r.choice([".inf", ".Inf", ".INF"])
    if x == int(x) and r.random() < 0.4:
        return "%d" % x
    text = repr(float(x))
    return r.choice([text, text, text + "0", "%.6f" % x, "+" + text if x >= 0 else text, "%.6e" % x])


def yaml(r, f):
    """The text of the file."""
    f = dict(f, **{k: f[k] * math.inf for k in ("mx", "my", "tc", "tp") if abs(f[k]) >= INFINITE})
    fault = f["fault"]
    fv = lambda k, v: "far" if fault == "text " + k else number(r, v)
    params = [("evaluation_task", json.dumps(f["task"])), ("frame_id", json.dumps(f["frame"])),
              ("max_x_position", fv("max_x_position", f["mx"] / f["den"])), ("max_y_position", fv("max_y_position", f["my"] / f["den"])),
              ("center_distance_threshold", fv("center_distance_threshold", f["tc"] / f["den"])),
              ("plane_distance_threshold", fv("plane_distance_threshold", f["tp"] / f["den"])),
              ("iou_2d_threshold", fv("iou_2d_threshold", f["t2"] / 1000)), ("iou_3d_threshold", fv("iou_3d_threshold", f["t3"] / 1000))]
    def seq(l):
        return "[" + ", ".join(json.dumps(x) for x in l) + "]"
    params.append(("target_labels", "7" if fault == "text target_labels" else seq(f["labels"])))
    if fault == "text min_point_number":
        params.append(("min_point_number", "few"))
    elif fault == "negative min_point_number":
        params.append(("min_point_number", r.choice(["-1", "-5"])))
    elif fault == "fraction min_point_number":
        params.append(("min_point_number", r.choice(["2.5", "0.5"])))
    elif f["mp"] >= 0:
        params.append(("min_point_number", "%d" % f["mp"]))
    elif f["absent"] == "null":
        params.append(("min_point_number", r.choice(["null", "~", ""])))
    if fault == "text target_uuids":
        params.append(("target_uuids", "7"))
    elif f["uuids"]["on"]:
        params.append(("target_uuids", seq(f["uuids"]["ids"])))
    elif f["absent"] == "null":
        params.append(("target_uuids", "null"))
    r.shuffle(params)
    params = [(k, v) for k, v in params if fault != "no " + k]
    ds = []
    for s in f["sets"]:
        inner = [("Version", json.dumps(s["version"])), ("VehicleId", "default"), ("LaunchSensing", "false"),
                 ("LocalMapPath", "$HOME/autoware_map/sample-map-planning")]
        r.shuffle(inner)
        inner = [(k, v) for k, v in inner if fault != "no " + k]
        ds.append("    - %s:\n" % (json.dumps(s["path"]) if r.random() < 0.5 or " " in s["path"] else s["path"])
                  + "".join("        %s: %s\n" % kv for kv in inner))
    if fault == "empty dataset":
        ds = ["    - {}\n"]
    sets = "  Datasets:\n" + "".join(ds) if ds else "  Datasets: []\n"
    if fault == "null datasets":
        sets = "  Datasets:\n"
    conf = "    evaluation_config_dict:\n" + "".join("      %s: %s\n" % kv for kv in params)
    if fault == "no evaluation_config_dict":
        conf = "    other: 1\n"
    parts = [("UseCaseName", "  UseCaseName: perception\n"), ("UseCaseFormatVersion", "  UseCaseFormatVersion: 0.4.0\n"), ("Datasets", sets),
             ("Conditions", "  Conditions:\n    PassRate: 99.0 # percent\n"),
             ("PerceptionEvaluationConfig", "  PerceptionEvaluationConfig:\n" + conf)]
    if r.random() < 0.3:
        r.shuffle(parts)
    ev = "Evaluation:\n" + "".join(t for k, t in parts if fault != "no " + k)
    top = [("ScenarioFormatVersion", "ScenarioFormatVersion: 3.0.0\n"), ("ScenarioName", "ScenarioName: sample\n"),
           ("ScenarioDescription", "ScenarioDescription: sample evaluation\n"), ("SensorModel", "SensorModel: kit\n"),
           ("VehicleModel", "VehicleModel: car\n"), ("Evaluation", ev)]
    text = "".join(t for k, t in top if fault != "no " + k)
    if fault == "garbled":
        text += "  - : [broken\n"
    if fault == "list":
        text = "- a\n- b\n"
    if fault == "empty":
        text = ""
    return text


def probes(r, f, labels):
    out = []
    for _ in range(14):
        c = lambda lim: r.choice([0, 5000, INFINITE, -INFINITE, -400000000]) if abs(lim) >= INFINITE else r.choice([-1, 1]) * (lim + r.choice([-1, 0, 1])) if r.random() < 0.3 else r.choice([0, lim // 2])
        out.append(obj(r.choice(labels) if r.random() < 0.85 else r.choice(LABELS), (c(f["mx"]), c(f["my"]), r.randint(-400, 400)),
                       n=r.choice([-1, 0, 1, 4, 5, 6, 1000, 65535, 65536, 65537, max(0, f["mp"] - 1), max(0, f["mp"])]), id=r.choice(["", "a", "dd", "a", "zz"])))
    return out


SHOWN = {"car": "Car", "truck": "Truck", "bus": "Bus", "bicycle": "Bicycle", "motorbike": "Motorbike", "pedestrian": "Pedestrian",
         "animal": "Animal", "unknown": "Unknown"}


def finish(r, files):
    for f in files:
        f["raw"] = r.random() < 0.5
        f["probes"] = probes(r, f, [SHOWN.get(n.lower(), r.choice(LABELS)) for n in f["labels"]] or LABELS)
        f["salt"] = r.randrange(1 << 30)
    return {"k": "config", "files": files}


def config_file(r):
    k = r.random()
    ids = r.choice([[], ["a"], ["a", "dd"], ["zz", "a", "b"]])
    den = r.choice([4, 4, 10, 1000, 1000])
    far = {4: 400, 10: 1000, 1000: 99000}[den]
    thr = lambda: r.randint(0, 30) if r.random() < 0.7 else r.randint(-far, far)
    f = {"fault": "", "task": r.choice(TASKS), "frame": r.choice(FRAMES), "labels": [r.choice(NAMES) for _ in range(r.choice([0, 1, 2, 3, 4, 8]))],
         "den": den,
         "mx": r.choice([0, 1, 10, 41, 400, -1, -40, r.randint(1, far)]), "my": r.choice([0, 1, 11, 37, 400, -2, -37, r.randint(1, far)]),
         "mp": r.choice([-1, -1, 0, 1, 5, 300, 65536, 70000]),
         "uuids": {"on": True, "ids": ids} if r.random() < 0.4 else {"on": False, "ids": []}, "tc": thr(), "tp": thr(),
         "t2": r.choice([r.randint(0, 8) * 125, r.randint(-100, 1000)]), "t3": r.choice([r.randint(0, 8) * 125, r.randint(-100, 1200)]), "absent": r.choice(["absent", "null"]),
         "sets": [{"path": r.choice(["tests/sample_data", "/data/x", "d", "./rel/p", "a.b/c-d"]), "version": r.choice(["annotation", "v1.0-mini", "1", ""])}
                  for _ in range(r.choice([1, 1, 1, 1, 2, 0]))]}
    for key in ("mx", "my", "tc", "tp"):
        if r.random() < 0.04:
            f[key] = INFINITE if key in ("tc", "tp") or r.random() < 0.8 else -INFINITE
    if k < 0.2:
        f["fault"] = r.choice(FATAL)
    elif k < 0.25:
        f["fault"] = r.choice(MINOR)
    elif k < 0.35:
        f["task"] = shake(r, f["task"])
    elif k < 0.45:
        f["frame"] = shake(r, f["frame"])
    return f


def config_case(r):
    return dict(finish(r, [config_file(r) for _ in range(r.randint(1, 6))]), place=r.random() < 0.4)   # all at the same place?


def from_tlc(items):
    r = random.Random(7)
    items = [dict(x) for x in items]
    items.sort(key=lambda x: json.dumps(x, sort_keys=True))
    r.shuffle(items)
    return [finish(r, items[k:k + 5]) for k in range(0, len(items), 5)]


def prepare(ctx, c):
    files = []
    root = ctx.path("cf")
    os.makedirs(root)
    for n, f in enumerate(c["files"]):
        r = random.Random(f["salt"])
        p = os.path.join(root, "s%d.yaml" % n)
        f["dir"] = os.path.join(root, r.choice(["r%d", "out/r%d", "r %d"]) % n)
        if f["fault"] == "directory":
            os.mkdir(p)
        elif f["fault"] == "binary":
            open(p, "wb").write(b"\xff\xfe\x00\x01")
        elif f["fault"] != "missing":
            open(p, "w").write(yaml(r, f))
        files.append({"path": p, "dir": f["dir"], "raw": f["raw"], "u": 1000 + f["den"], "probes": f["probes"]})
    place = {"place": os.path.join(root, "scenario.yaml")} if c.get("place") else {}
    return {"k": "config", "id": c["id"], "files": files, **place}


def micro(x):
    """Millionths, or -1 if the number is none of them to within its rounding."""
    if x == math.inf:
        return 2_000_000_000
    if not abs(x) < 2000:
        return -1
    k = round(x * 1e6)
    return k if abs(x - k / 1e6) <= 1e-14 * abs(x) else -1


def debug_list(text, *names):
    import re
    for n in names:
        m = re.search(r"\b%s: \[([^\]]*)\]" % n, text)
        if m:
            try:
                return [micro(float(x)) for x in m.group(1).split(",") if x.strip()]
            except ValueError:
                return None
    return None


def post(c, obs):
    out = []
    for o in obs["out"]:
        if o["st"] == "ok":
            o = dict(o)
            o["sections"] = report.sections(o.pop("text"))
            d = o.pop("debug")
            lists = {"cd": debug_list(d, "center_distance_thresholds"), "pd": debug_list(d, "plane_distance_thresholds"),
                     "i2": debug_list(d, "iou2d_thresholds", "iou_2d_thresholds"), "i3": debug_list(d, "iou3d_thresholds", "iou_3d_thresholds")}
            o["seen"] = all(v is not None for v in lists.values())
            for k, v in lists.items():
                o[k] = v if v is not None else []
        out.append(o)
    return {"out": out}
