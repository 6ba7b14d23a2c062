"""Datasets (see spec/Dataset and spec/GroundTruth) and their files."""
import json, math, os, shutil

CODES = {"attribute": "a1", "visibility": "vv", "category": "c2", "sensor": "5e", "cs": "c5", "ego": "e9", "log": "70", "map": "3a",
         "instance": "1f", "scene": "5c", "sample": "5a", "ann": "aa", "sd": "5d"}
FILES = {"attribute": "attribute", "visibility": "visibility", "category": "category", "sensor": "sensor",
         "cs": "calibrated_sensor", "ego": "ego_pose", "log": "log", "map": "map", "instance": "instance", "scene": "scene",
         "sample": "sample", "ann": "sample_annotation", "sd": "sample_data"}
REFS = {("cs", "sensor"): "sensor", ("instance", "cat"): "category", ("instance", "first"): "ann", ("instance", "last"): "ann",
        ("scene", "log"): "log", ("scene", "first"): "sample", ("scene", "last"): "sample", ("sample", "scene"): "scene",
        ("sample", "prev"): "sample", ("sample", "next"): "sample", ("ann", "sample"): "sample", ("ann", "inst"): "instance",
        ("ann", "vis"): "visibility", ("ann", "prev"): "ann", ("ann", "next"): "ann", ("sd", "sample"): "sample",
        ("sd", "ego"): "ego", ("sd", "cs"): "cs", ("sd", "prev"): "sd", ("sd", "next"): "sd"}
NAMES = ["car", "vehicle.car", "truck", "vehicle.bus.rigid", "vehicle.bicycle", "vehicle.motorcycle", "human.pedestrian.adult",
         "animal", "movable_object.barrier", "unknown", "pedestrian", "vehicle.trailer", "spaceship", "vehicle.bus (bendy & rigid)"]
CHANNELS = {"lidar": ["LIDAR_TOP", "LIDAR_CONCAT"], "camera": ["CAM_FRONT", "CAM_BACK", "CAM_TRAFFIC_LIGHT_NEAR"],
            "radar": ["RADAR_FRONT", "RADAR_BACK_LEFT"]}
QUATS = [[1, 0, 0, 0], [0, 0, 0, 1], [1, 0, 0, 1], [1, 0, 0, -1], [-1, 0, 0, 0], [2, 0, 0, 1], [3, 0, 0, -1], [1, 1, 0, 0], [0, 1, 0, 0],
         [1, 1, 1, 1], [-1, 1, 1, 1], [1, -2, 2, 4], [2, 1, 0, 0], [1, 2, 2, 0], [4, 1, -2, 2], [0, 0, 2, 1], [-3, 1, 0, 2]]


def tok(table, n, r=None, lay=0):
    """Numbers from 80000000 on do not exist; some of them are tokens of another table.  lay: where the
    number stands in the token (last, first, in the middle), from 3 on all tables have the same tokens."""
    if n == 0:
        return ""
    if table == "visibility":
        return "%d" % n
    code = CODES[table] if lay < 3 else "b7"
    if 80000000 <= n < 90000000:
        if lay < 3:
            code = CODES["log" if table != "log" else "sensor"]
            n -= 80000000
    at = [24, 0, 11][lay % 3]
    t = (code * 12)[:at] + "%08d" % n + (code * 12)[at:]
    return t.upper() if r and r.random() < 0.2 else t


def render(c, d, r=None):
    """The JSON content of every table."""
    T, base = c["tables"], c["base"]
    us = lambda t: base * 1000000 + t
    out = {}
    norm = lambda q: [x / sum(y * y for y in q) ** 0.5 for x in q]
    met = lambda p: [x * 0.25 for x in p]
    at = lambda p: [(x + y) * 0.25 for x, y in zip(p, c.get("at", [0, 0, 0]))]     # positions on the map
    k = lambda table, n: tok(table, n, r, c.get("lay", 0))
    out["attribute"] = [{"token": k("attribute", x["t"]), "name": "attr%d" % x["t"], "description": ""} for x in T["attribute"]]
    out["visibility"] = [{"token": k("visibility", x["t"]), "level": ["v0-40", "v40-60", "v60-80", "v80-100"][x["t"] % 4], "description": "d"} for x in T["visibility"]]
    out["category"] = [{"token": k("category", x["t"]), "name": x["name"], "description": "d"} for x in T["category"]]
    out["sensor"] = [{"token": k("sensor", x["t"]), "modality": x["mod"], "channel": CHANNELS[x["mod"]][x["t"] % 2]} for x in T["sensor"]]
    out["cs"] = [{"token": k("cs", x["t"]), "sensor_token": k("sensor", x["sensor"]), "rotation": norm(x["q"]),
                  "translation": met(x["tr"]), "camera_intrinsic": [] if x["t"] % 2 else [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]} for x in T["cs"]]
    out["ego"] = [{"token": k("ego", x["t"]), "timestamp": us(x["ts"]), "rotation": norm(x["q"]), "translation": at(x["p"])} for x in T["ego"]]
    out["log"] = [{"token": k("log", x["t"]), "location": "l", "vehicle": "v", "date_captured": "2018-07-24", "logfile": x.get("file", "")} for x in T["log"]]
    out["map"] = [{"token": k("map", x["t"]), "category": "c", "filename": "f.png", "log_tokens": [k("log", l) for l in x["logs"]]} for x in T["map"]]
    out["instance"] = [{"token": k("instance", x["t"]), "category_token": k("category", x["cat"]), "nbr_annotations": x["n"],
                        "first_annotation_token": k("ann", x["first"]), "last_annotation_token": k("ann", x["last"])} for x in T["instance"]]
    out["scene"] = [{"token": k("scene", x["t"]), "name": "s%d" % x["t"], "description": "", "log_token": k("log", x["log"]), "nbr_samples": x["n"],
                     "first_sample_token": k("sample", x["first"]), "last_sample_token": k("sample", x["last"])} for x in T["scene"]]
    out["sample"] = [{"token": k("sample", x["t"]), "timestamp": us(x["ts"]), "scene_token": k("scene", x["scene"]),
                      "prev": k("sample", x["prev"]), "next": k("sample", x["next"])} for x in T["sample"]]
    out["ann"] = [{"token": k("ann", x["t"]), "sample_token": k("sample", x["sample"]), "instance_token": k("instance", x["inst"]),
                   "attribute_tokens": [k("attribute", a) for a in x["attrs"]], "visibility_token": k("visibility", x["vis"]),
                   "translation": at(x["p"]), "size": met(x["s"]), "rotation": norm(x["q"]), "num_lidar_pts": x["pts"], "num_radar_pts": x["t"] % 3,
                   "prev": k("ann", x["prev"]), "next": k("ann", x["next"])} for x in T["ann"]]
    out["sd"] = [{"token": k("sd", x["t"]), "sample_token": k("sample", x["sample"]), "ego_pose_token": k("ego", x["ego"]),
                  "calibrated_sensor_token": k("cs", x["cs"]), "timestamp": us(x["ts"]), "fileformat": x.get("fmt", "pcd"), "is_key_frame": x["key"],
                  "height": 0, "width": 0, "filename": x.get("file", "data/f%d.bin" % x["t"]), "prev": k("sd", x["prev"]), "next": k("sd", x["next"])} for x in T["sd"]]
    return out


BASE_FILES = {}


def write(ctx, c, r=None):
    root = ctx.path("ds")
    v = os.path.join(root, "v1")
    os.makedirs(v)
    for table, recs in render(c, root, r).items():
        st = c["files"][table]
        path = os.path.join(v, FILES[table] + ".json")
        if st == "missing":
            continue
        if st == "directory":
            os.mkdir(path)
            continue
        text = json.dumps(recs)
        if st == "empty":
            text = ""
        elif st == "cut":
            text = text[:-1]
        elif st == "tail":
            text = text + "]"
        elif st == "object":
            text = json.dumps({"records": recs})
        elif st == "null":
            text = "null"
        elif st == "field":            # a record without its token
            text = json.dumps([{k: x for k, x in rec.items() if k != "token"} for rec in recs] or [{}])
        elif st == "token":            # a token that is not one
            text = json.dumps([dict(rec, token=7) for rec in recs] or [{"token": "?"}])
        elif st == "latin":            # a text in another encoding than JSON's
            texts = [k for k in ("description", "location", "filename", "name", "level", "token") if recs and k in recs[-1]]
            text = json.dumps(recs[:-1] + [dict(recs[-1], **{texts[0]: str(recs[-1][texts[0]]) + "caf@@"})] if recs else [{"token": "@@"}])
        elif st == "nan":              # a number that JSON cannot write
            keys = [(n, k) for n, rec in enumerate(recs) for k in rec if isinstance(rec[k], (int, float, list)) and rec[k] and k != "token"]
            n, k = keys[-1] if keys else (0, "token")
            recs = recs or [{}]
            broken = [math.nan] + recs[n][k][1:] if isinstance(recs[n].get(k), list) else math.nan
            text = json.dumps(recs[:n] + [dict(recs[n], **{k: broken})] + recs[n + 1:])
        data = b"\xff\xfe\x00[" if st == "binary" else text.encode().replace(b"@@", b"\xe9")
        with open(path, "wb") as f:
            f.write(data)
    for x in c["tables"]["log"]:
        if x.get("open", "none") not in ("none", "err"):
            p = os.path.join(root, x["file"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(x["open"])
    for path, data in c.get("data", {}).items():
        p = os.path.join(root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(bytes(data))
    return root


def prepare(ctx, c):
    import random
    r = random.Random(c["salt"])
    root = write(ctx, c, r)
    earlier = {"place": ctx.path("at"), "before": [prepare(ctx, dict(b, id=0, k=c["k"])) for b in c["before"]]} if c.get("before") else {}
    return {**earlier, "k": c["k"], "id": c["id"], "dir": root, "version": "v1", "deep": c["deep"], "base": c["base"], "frame": c["frame"],
            "at": c.get("at", [0, 0, 0]),
            "maplogs": all(l in [x["t"] for x in c["tables"]["log"]] for m in c["tables"]["map"] for l in m["logs"])}


def slim(c):
    return {k: v for k, v in c.items() if k not in ("salt", "base", "at", "lay", "before")}


def fresh():
    n = [0]
    def f():
        n[0] += 1
        return n[0]
    return f


def link(recs):
    for k, x in enumerate(recs):
        x["prev"] = recs[k - 1]["t"] if k else 0
        x["next"] = recs[k + 1]["t"] if k + 1 < len(recs) else 0


def pos(r, far):
    return [r.randint(-far, far), r.randint(-far, far), r.randint(-40, 40)]


def logfile(r, k):
    """The log file a record names, and what opening it must give."""
    open_ = r.choice(["none", "err", "text %d" % r.randrange(1000)])
    path = r.choice(["f%d", "logs/n%d.log", "v1/l%d", "v1/../m%d", "./p%d", "../of-" + str(r.randrange(10 ** 9)) + "-%d"])
    return {"file": "" if open_ == "none" else path % k, "open": open_}


def consistent(r, plain=False, big=False):
    """Tables that resolve, with chains that hold."""
    T = {t: [] for t in CODES}
    # unrelated numbering in every table, so that mixed up tables do not go unnoticed
    num = {}
    for t in CODES:
        pool = list(range(1, 3000 if big else 60))
        r.shuffle(pool)
        num[t] = pool
    def add(table, **f):
        x = dict(t=num[table].pop(), **f)
        T[table].append(x)
        return x
    far = r.choice([4, 40, 4000])
    identity = r.random() < 0.1
    q = lambda: [1, 0, 0, 0] if identity else r.choice(QUATS)
    for _ in range(r.choice([0, 1, 2, 3, r.randint(4, 12)])):
        add("attribute")
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        add("visibility")
    cats = [add("category", name=r.choice(NAMES)) for _ in range(r.randint(1, 4))]
    for c in cats:
        if r.random() < 0.3:
            c["name"] = "".join(r.choice([ch.upper(), ch]) for ch in c["name"])
    mods = ["lidar"] + [r.choice(["lidar", "camera", "radar"]) for _ in range(r.randint(0, 3))]
    sensors = [add("sensor", mod=m) for m in mods]
    css = [add("cs", sensor=s["t"], q=q(), tr=pos(r, 20)) for s in sensors + [r.choice(sensors) for _ in range(r.randint(0, 1))]]
    logs = [add("log", **logfile(r, k)) for k in range(r.choice([1, 2, 3, r.randint(4, 8)]))]
    dang = r.random() < 0.3
    for _ in range(r.choice([0, 1, 2, 2, 6])):
        ls = [r.choice(logs)["t"] for _ in range(r.choice([0, 1, 2, 3, r.randint(4, 9)]))]
        if dang:
            ls.append(r.choice([90000001, 80000001]))
            r.shuffle(ls)
        add("map", logs=ls)
    times = r.sample(range(0, 600 if big else 60), 300 if big else 20)
    step = r.choice([1, 1000, 50000, 100000, 1000000])
    mono = r.random() < 0.6
    scenes = [add("scene", log=r.choice(logs)["t"]) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, r.choice([3, 4])]))]
    samples = []
    for sc in scenes:
        ts = [times.pop() * step for _ in range(r.choice([20, 40, 66]) if big else r.choice([1, 1, 2, 3, 4]))]
        if mono:
            ts.sort()
        own = [add("sample", ts=t, scene=sc["t"]) for t in ts]
        link(own)
        sc.update(n=len(own), first=own[0]["t"], last=own[-1]["t"])
        samples += own
    if samples and r.random() < 0.2:
        r.choice(samples)["ts"] = r.choice(samples)["ts"]
    for _ in range(r.choice([3, 10, 30]) if big else r.choice([0, 1, 2, 3, 5])) if samples else []:
        own = r.sample(samples, r.randint(1, min(40 if big else 4, len(samples))))
        if r.random() < 0.7:
            own.sort(key=lambda s: s["ts"])
        inst = add("instance", cat=r.choice(cats)["t"])
        anns = [add("ann", sample=s["t"], inst=inst["t"], attrs=[r.choice(T["attribute"])["t"] for _ in range(r.choice([0, 0, 1, 2, r.randint(3, 9)]))] if T["attribute"] else [],
                    vis=r.choice(T["visibility"])["t"] if T["visibility"] and r.random() < 0.7 else 0, p=pos(r, far), q=q(),
                    s=[r.randint(1, 20) for _ in range(3)], pts=r.choice([0, 0, 1, 5, 1000, r.choice([255, 256, 65535, 65536, 70001, 16777217])])) for s in own]
        link(anns)
        inst.update(n=len(anns), first=anns[0]["t"], last=anns[-1]["t"])
    style = r.choice(["lidar", "lidar", "mixed", "mixed", "few"])
    modof = {c["t"]: [s for s in sensors if s["t"] == c["sensor"]][0]["mod"] for c in css}
    lid = [c for c in css if modof[c["t"]] == "lidar"]
    for s in samples:
        recs = []
        if style != "few" or r.random() < 0.5:
            recs.append((r.choice(lid), 0))
        if style != "lidar":
            for _ in range(r.choice([0, 1, 1, 2])):
                c = r.choice(css)
                shift = r.choice([0, 0, 1, -1, 500, 1000, -1000, 999999])
                if modof[c["t"]] == "lidar" and shift == 0 and r.random() < 0.9:
                    shift = r.choice([1, -1, 999, -1000, 40000])
                recs.append((c, shift))
        r.shuffle(recs)
        for c, shift in recs:
            e = None
            if T["ego"] and r.random() < 0.2:
                e = r.choice(T["ego"])
            e = e or add("ego", ts=s["ts"] + shift + r.choice([0, 0, 0, 7]), q=q(), p=pos(r, far))
            add("sd", sample=s["t"], ego=e["t"], cs=c["t"], ts=s["ts"] + shift, key=r.random() < 0.6, prev=0, next=0)
    if r.random() < 0.7:
        for c in css:
            link(sorted([x for x in T["sd"] if x["cs"] == c["t"]], key=lambda x: x["ts"]))
    elif T["sd"]:
        for x in T["sd"]:
            x["prev"] = r.choice([0, r.choice(T["sd"])["t"]])
            x["next"] = r.choice([0, r.choice(T["sd"])["t"]])
    for t in T:
        r.shuffle(T[t])
    return T


def case(r, T, deep, files=None):
    return {"k": "dataset", "tables": T, "files": dict({t: "ok" for t in CODES}, **(files or {})), "deep": deep,
            "base": r.choice([1532402927, 1600000000, 10, 4000000000, -1000000000, -30]), "salt": r.randrange(1 << 30), "lay": r.choice([0, 0, 0, 1, 2, 3, 4]),
            "frame": r.choice(["BaseLink", "Map", "CamFront"]),
            "at": [0, 0, 0] if r.random() < 0.6 else [r.randint(-400000, 400000), r.randint(-400000, 400000), r.randint(-2000, 2000)]}


def variant(r, T):
    """The same records with other values."""
    T = json.loads(json.dumps(T))
    for a in T["ann"]:
        if r.random() < 0.7:
            a.update(p=pos(r, 20), pts=r.choice([0, 3, 7]), s=[r.randint(1, 20) for _ in range(3)])
    for e in T["ego"]:
        if r.random() < 0.7:
            e["p"] = pos(r, 20)
    names = [x["name"] for x in T["category"]]
    r.shuffle(names)
    for x, n in zip(T["category"], names):
        x["name"] = n
    return T


def later(r, c):
    """Sometimes other content was at the same place before."""
    if r.random() < 0.25:
        b = dict(c, tables=variant(r, c["tables"]) if r.random() < 0.6 else consistent(r), files={t: "ok" for t in CODES})
        b.pop("before", None)
        c["before"] = [b]
    return c


def dataset_case(r):
    return later(r, case(r, consistent(r), True))


def big_dataset(r):
    return case(r, consistent(r, big=True), True)


FAULTS = ["missing", "directory", "empty", "cut", "tail", "object", "null", "field", "token", "binary", "latin", "nan"]


def mutate(r, T):
    k = r.random()
    if k < 0.55:
        table, f = r.choice([x for x in REFS if T[x[0]]] or [(None, None)])
        if not table:
            return
        x = r.choice(T[table])
        target = REFS[(table, f)]
        old = x[f]
        pick = r.random()
        known = [y["t"] for y in T[target]]
        if pick < 0.45:
            x[f] = r.choice([90000001 + r.randrange(3)] + [80000000 + n["t"] for n in T["log"][:1]])
        elif pick < 0.9 or f not in ("prev", "next", "vis"):
            x[f] = r.choice(known) if known else 90000001
        else:
            x[f] = 0 if old or not known else r.choice(known)
    elif k < 0.65:
        ann = [a for a in T["ann"]]
        if ann:
            a = r.choice(ann)
            a["attrs"] = a["attrs"] + [r.choice([90000001] + [x["t"] for x in T["attribute"]])]
            r.shuffle(a["attrs"])
    elif k < 0.78:
        xs = T["instance"] + T["scene"]
        if xs:
            x = r.choice(xs)
            x["n"] = max(0, x["n"] + r.choice([-1, 1, 1, 2, -2, -x["n"]]))
    elif k < 0.9:
        table = r.choice([t for t in T if T[t]])
        T[table].remove(r.choice(T[table]))
    elif k < 0.94:
        # a record outside of every chain, whose links may dangle
        table = r.choice(["ann", "sample", "sd"])
        if T[table]:
            x = dict(r.choice(T[table]), t=max(y["t"] for y in T[table]) + r.randint(1, 3))
            some = [0, 90000001, 80000000 + T["log"][0]["t"] if T["log"] else 90000002, r.choice(T[table])["t"]]
            x["prev"], x["next"] = r.choice(some), r.choice(some)
            T[table].append(x)
            r.shuffle(T[table])
    else:
        # a link redirected within its chain
        table = r.choice(["ann", "sample"])
        if T[table]:
            x = r.choice(T[table])
            x[r.choice(["next", "prev"])] = r.choice(T[table])["t"]


def faulty_case(r, big=False):
    T = consistent(r, big=big)
    files = {}
    if r.random() < 0.15:
        files[r.choice(list(CODES))] = r.choice(FAULTS)
    else:
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            mutate(r, T)
    return later(r, case(r, T, False, files)) if not big else case(r, T, False, files)


# ---------------- small link graphs enumerated by TLC ----------------

def from_links(items):
    """Every small link graph, once as a scene's samples and once as an instance's annotations."""
    out = []
    for x in items:
        K = len(x["next"])
        fix = lambda n: n if n <= K else 90000001
        for what in ("sample", "ann"):
            T = {t: [] for t in CODES}
            T["log"] = [{"t": 9}]
            T["category"] = [{"t": 8, "name": "car"}]
            if what == "sample":
                T["scene"] = [{"t": 7, "log": 9, "n": x["n"], "first": fix(x["first"]), "last": fix(x["last"])}]
                T["sample"] = [{"t": k + 1, "ts": (k * 7 % 5) * 1000, "scene": 7, "prev": fix(x["prev"][k]), "next": fix(x["next"][k])} for k in range(K)]
            else:
                T["scene"] = [{"t": 7, "log": 9, "n": 1, "first": 6, "last": 6}]
                T["sample"] = [{"t": 6, "ts": 0, "scene": 7, "prev": 0, "next": 0}]
                T["instance"] = [{"t": 5, "cat": 8, "n": x["n"], "first": fix(x["first"]), "last": fix(x["last"])}]
                T["ann"] = [{"t": k + 1, "sample": 6, "inst": 5, "attrs": [], "vis": 0, "p": [k, 0, 0], "q": [1, 0, 0, 0], "s": [1, 1, 1],
                             "pts": k, "prev": fix(x["prev"][k]), "next": fix(x["next"][k])} for k in range(K)]
            out.append({"k": "dataset", "tables": T, "files": {t: "ok" for t in CODES}, "deep": False, "base": 1000, "salt": 1, "frame": "BaseLink"})
    return out


def file_faults(_):
    """Every table with every fault of its file, in one plain dataset."""
    import random
    r = random.Random(5)
    T = None
    while not T or not all(T[t] for t in T):
        T = consistent(r)
    return [case(r, json.loads(json.dumps(T)), False, {t: f}) for t in CODES for f in FAULTS + ["ok"]]
