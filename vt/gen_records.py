"""Written records of the dataset tables (see spec/Records)."""
import json

ENUMS = {
    "fileformat": ["bin", "pcd", "jpeg", "jpg", "png"],
    "modality": ["camera", "lidar", "radar"],
    "level": ["v0-40", "none", "v40-60", "partial", "v60-80", "most", "v80-100", "full"],
    "channel": ["CAM_BACK", "CAM_BACK_LEFT", "CAM_BACK_RIGHT", "CAM_FRONT", "CAM_FRONT_LEFT", "CAM_FRONT_RIGHT",
                "CAM_FRONT_ZOOMED", "LIDAR_TOP", "LIDAR_CONCAT", "RADAR_BACK_LEFT", "RADAR_BACK_RIGHT", "RADAR_FRONT",
                "RADAR_FRONT_LEFT", "RADAR_FRONT_RIGHT", "CAM_TRAFFIC_LIGHT_NEAR", "CAM_TRAFFIC_LIGHT_FAR"],
}
FIELDS = {
    "attribute": {"token": "token", "name": "text", "description": "text"},
    "calibrated_sensor": {"token": "token", "sensor_token": "token", "rotation": "n4", "translation": "n3", "camera_intrinsic": "matrix"},
    "category": {"token": "token", "name": "text", "description": "text"},
    "ego_pose": {"token": "token", "timestamp": "time", "rotation": "n4", "translation": "n3"},
    "instance": {"token": "token", "nbr_annotations": "count", "category_token": "token", "first_annotation_token": "token",
                 "last_annotation_token": "token"},
    "log": {"token": "token", "location": "text", "vehicle": "text", "date_captured": "date", "logfile": "text"},
    "map": {"token": "token", "category": "text", "filename": "text", "log_tokens": "tokens"},
    "sample": {"token": "token", "next": "link", "prev": "link", "scene_token": "token", "timestamp": "time"},
    "sample_annotation": {"token": "token", "num_lidar_pts": "count", "num_radar_pts": "count", "size": "n3", "rotation": "n4",
                          "translation": "n3", "sample_token": "token", "instance_token": "token", "attribute_tokens": "tokens",
                          "visibility_token": "text", "next": "link", "prev": "link"},
    "sample_data": {"token": "token", "fileformat": "fileformat", "is_key_frame": "flag", "filename": "text", "timestamp": "time",
                    "sample_token": "token", "ego_pose_token": "token", "calibrated_sensor_token": "token", "next": "link",
                    "prev": "link"},
    "scene": {"token": "token", "name": "text", "description": "text", "log_token": "token", "nbr_samples": "count",
              "first_sample_token": "token", "last_sample_token": "token"},
    "sensor": {"token": "token", "modality": "modality", "channel": "channel"},
    "visibility": {"token": "text", "level": "level", "description": "text"},
}


def micros(t):
    return (t[0] * 86400 + t[1]) * 1000000 + t[2]


def text(table, w, order=None, floats=(), extra=None, nulls=()):
    """The record as text of its file."""
    out = {}
    for f, v in w.items():
        kind = FIELDS[table][f]
        if f in nulls:
            v = None
        elif kind == "time":
            v = micros(v)
            if f in floats and v < 36 * 10**14:     # later ones cannot be read exactly in decimal notation
                v = float(v)
        elif isinstance(v, list) and v and (isinstance(v[0], str) and kind in ("n3", "n4") or kind == "matrix" and v[0] and isinstance(v[0][0], str)):
            v = [float(x) for x in v] if kind != "matrix" else [[float(x) for x in row] for row in v]
        elif kind in ("n3", "n4"):
            v = [x / 8 for x in v]
        elif kind == "matrix":
            v = [[x / 8 for x in row] for row in v]
        elif kind == "date":
            v = v or None
        out[f] = v
    if order:
        out = {f: out[f] for f in order}
    out.update(extra or {})
    return json.dumps(out)


def decimal(r):
    """A number with ten decimals, as text."""
    k = r.randint(-99999999999999, 99999999999999) // r.choice([1, 1, 1000, 10**8, 10**13])
    return "%s%d.%010d" % ("-" if k < 0 else "", abs(k) // 10**10, abs(k) % 10**10)


def token(r):
    t = "%032x" % r.getrandbits(128)
    k = r.random()
    if k < 0.1:
        return ("0" * r.randint(1, 30) + t)[:32]
    if k < 0.25:
        return t.upper()
    if k < 0.4:
        return "".join(r.choice([c.upper(), c]) for c in t)
    return t


def bad_token(r):
    t = token(r)
    k = r.randrange(6)
    if k == 0:
        return t[:r.randint(1, 31)]
    if k == 1:
        return t + token(r)[:r.randint(1, 32)]
    if k == 2:
        i = r.randrange(32)
        return t[:i] + r.choice("gGxyz-_ .,\u00e9\u0660\u2460") + t[i + 1:]
    if k == 3:
        return t[:16] + " " + t[16:]
    if k == 4:
        return r.choice(["x", "null", "0x" + t[2:], "-" + t[1:], "+" + t[1:], "{" + t[:30] + "}"])
    return t[:2 * r.randint(0, 15)] or " "


def value(r, kind, dec=False):
    if kind == "token":
        return token(r)
    if kind == "tokens":
        return [token(r) for _ in range(r.choice([0, 0, 1, 2, 4]))]
    if kind == "link":
        return "" if r.random() < 0.4 else token(r)
    if kind == "text":
        return r.choice(["", "a", "A b", "none", "null", "v0-40", "x/y/z.bin", "../up", "/abs/f", "./x/y", "x//y/", "x/./y", "x/../y", "~/x", "$HOME/x", "x\\y", "q\"q", "b\\s", "n\nl", "\u00e9\u4e16\U0001f697",
                         "%d" % r.randint(1, 9), "0" * 20, " lead", "trail ", " ", "  ", "\t", "\u3000", "\u00a0x", "x" * 300])
    if kind == "time":
        us = r.choice([0, 1, 999999, 1000, 999, r.randrange(1000000), r.randrange(1000000)])
        return [r.choice([0, 1, r.randint(0, 47481), 17000 + r.randint(0, 3000), r.choice([-1, -r.randint(2, 25000)])]), r.randrange(86400), us]
    if kind in ("n3", "n4") and dec:
        return [decimal(r) for _ in range(int(kind[1]))]
    if kind == "matrix" and dec:
        return [] if r.random() < 0.4 else [[decimal(r) for _ in range(3)] for _ in range(3)]
    if kind in ("n3", "n4"):
        return [r.choice([0, 1, -1, 8, r.randint(-80000, 80000)]) for _ in range(int(kind[1]))]
    if kind == "matrix":
        return [] if r.random() < 0.4 else [[r.randint(-9999, 9999) for _ in range(3)] for _ in range(3)]
    if kind == "count":
        return r.choice([0, 1, 2, 3, r.randint(0, 1000000), 255, 256, 65535, 65536, 2147483647])
    if kind == "flag":
        return r.random() < 0.5
    if kind == "date":
        return r.choice(["", "2018-08-01", "1999-12-31", "2100-01-01", "2020-02-29", "%04d-%02d-%02d" % (r.randint(1970, 2100), r.randint(1, 12), r.randint(1, 28))])
    return r.choice(ENUMS[kind])


def spoil(r, table, w, nulls):
    """Leaves out a field or its value, or makes it one that it cannot be."""
    f = r.choice(list(w))
    kind = FIELDS[table][f]
    k = r.random()
    if k < 0.35:
        del w[f]
    elif k < 0.6:
        nulls.append(f)
    elif kind in ENUMS:
        x = w[f]
        w[f] = r.choice([x.swapcase(), x + " ", " " + x, x[:-1], x + x, "", "?", x.replace("_", "-") + "-"])
    elif kind in ("n3", "n4"):
        w[f] = r.choice([w[f][:-1], w[f] + w[f][-1:], [], w[f] + w[f]])
    elif kind == "matrix":
        rows = w[f] or [[8, 0, 0], [0, 8, 0], [0, 0, 8]]
        w[f] = r.choice([rows[:1], rows[:2], rows + rows[:1], rows + rows, [x[:2] for x in rows], [x + x[:1] for x in rows], [[]],
                         rows[:2] + [rows[2][:2]]])


def record_case(r):
    if r.random() < 0.15:
        return {"k": "tokens", "texts": [token(r) if r.random() < 0.4 else r.choice([bad_token(r), ""]) for _ in range(20)]}
    table = r.choice(list(FIELDS))
    dec = r.random() < 0.4
    w = {f: value(r, k, dec) for f, k in FIELDS[table].items()}
    if r.random() < 0.3:
        fs = [f for f, k in FIELDS[table].items() if k in ("token", "tokens", "link")]
        if fs:
            f = r.choice(fs)
            w[f] = [token(r), bad_token(r)] if FIELDS[table][f] == "tokens" else bad_token(r)
    nulls = []
    if r.random() < 0.15:
        spoil(r, table, w, nulls)
    order = list(w)
    if r.random() < 0.5:
        r.shuffle(order)
    floats = [f for f in w if r.random() < 0.2]
    extra = {"zz_extra": r.choice([1, "x", None, [], {"a": 1}])} if r.random() < 0.15 else None
    return {"k": "record", "table": table, "dec": dec, "w": w, "nulls": nulls, "text": text(table, w, order, floats, extra, nulls)}


def from_tlc(items):
    out = []
    for x in items:
        w = dict(x["w"])
        t = text(x["table"], w, nulls=x["nulls"])
        out.append({"k": "record", "table": x["table"], "w": w, "nulls": x["nulls"], "text": t})
    return out


def slim(c):
    return {k: v for k, v in c.items() if k != "text"}
