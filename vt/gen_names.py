"""Names of categories, tasks and frames; frame lookups."""
from .gen_eval import obj

# Words to build category names from; the specification says what they mean.
WORDS = ["vehicle", "car", "truck", "trailer", "bus", "bicycle", "motorbike", "motorcycle", "pedestrian", "adult", "child",
         "construction", "construction_worker", "personal_mobility", "police_officer", "police", "stroller", "wheelchair",
         "human", "animal", "unknown", "movable_object", "static_object", "barrier", "debris", "trafficcone",
         "traffic_cone", "pushable_pullable", "bicycle_rack", "bollard", "rigid", "bendy", "emergency", "ambulance",
         "fire", "(ambulance & police)", "(bendy & rigid)"]
TASKS = ["detection", "tracking", "prediction", "Detection", "Tracking", "Prediction"]
FRAMES = ["base_link", "map", "cam_back", "cam_back_left", "cam_back_right", "cam_front", "cam_front_left", "cam_front_right",
          "cam_traffic_light_near", "cam_traffic_light_far", "BaseLink", "Map", "CamBack", "CamBackLeft", "CamBackRight",
          "CamFront", "CamFrontLeft", "CamFrontRight", "CamTrafficLightNear", "CamTrafficLightFar"]


def shake(r, s):
    k = r.random()
    if k < 0.3:
        return "".join(r.choice([c.upper(), c.lower()]) for c in s)
    if k < 0.5 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice(["", "_", ".", " ", "x", s[i] * 2]) + s[i + 1:]
    if k < 0.6:
        return s.replace(r.choice("._ "), r.choice("-_. /"))
    return s


def names_case(r):
    def name():
        sep = r.choice([".", ".", ".", " ", "", "_"])
        return shake(r, sep.join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 2, 3]))))
    return {"k": "names", "names": [name() for _ in range(r.randint(0, 12))],
            "tasks": [shake(r, r.choice(TASKS)) for _ in range(4)],
            "frames": [shake(r, r.choice(FRAMES)) for _ in range(6)], "prefixes": []}


def pack_names(items, size=60):
    out = []
    for what, key in (("name", "names"), ("task", "tasks"), ("frame", "frames")):
        l = sorted(x["text"] for x in items if x["what"] == what)
        for k in range(0, len(l), size):
            c = {"k": "names", "names": [], "tasks": [], "frames": [], "prefixes": []}
            c[key] = l[k:k + size]
            out.append(c)
    return out


def far(r, at, base):
    """A time out of reach, from 16 seconds to decades away: also where counters of seconds, milliseconds
    or microseconds come round."""
    d = r.choice([10 ** 6 * 60, 10 ** 6 * 3600, 10 ** 6 * 86400, 10 ** 6 * 86400 * 365, 2 ** 31, 2 ** 32, 2 ** 63 // 10 ** 9 * 10 ** 3,
                  2 ** 16 * 1000, 2 ** 31 * 1000, 2 ** 32 * 1000, 2 ** 24 * 1000, 10 ** 8, 16 * 10 ** 6 + r.randrange(10 ** 14)])
    if base > 1000 and r.random() < 0.5 and d // 10 ** 6 < base - 10:
        d = -d
    s, us = divmod(at + d + r.choice([0, 0, 0, 1000, -1000, r.randint(-90000, 90000)]), 10 ** 6)
    if base + s > 8 * 10 ** 9:
        s = 100
    return us, s


def lookup_case(r):
    n = r.choice([0, 1, 2, 3, 5, 9])
    base = r.choice([1, 1, 0, -1, -86400, 1600000000, 1700000001, 4000000000])
    at = r.choice([0, 999, 500, 123456])
    def near():
        k = r.random()
        if k < 0.35:
            return at + r.choice([-1, 1]) * (r.choice([75, 75, 74, 76, 0, 1]) * 1000 + r.choice([-1, 0, 1, -999, 999]))
        if k < 0.8:
            return at + r.randint(-90000, 90000)
        return at + r.randint(-900000, 2000000)
    ts = [near() for _ in range(n)]
    if ts and r.random() < 0.3:
        ts.append(r.choice(ts))
        r.shuffle(ts)
    if r.random() < 0.04:     # a recording of many frames
        step = r.choice([40000, 74999, 99999, 100000, 100001, 150000])
        first = at - step * r.randrange(12)
        ts = [first + step * k + r.choice([0, 0, r.randint(-20000, 20000)]) for k in range(r.choice([12, 20, 28]))]
        if r.random() < 0.3:
            r.shuffle(ts)
    ss = [0] * len(ts)
    if r.random() < 0.35:
        for k in range(len(ts)):
            if r.random() < 0.5:
                ts[k], ss[k] = far(r, at, base)
    return {"k": "lookup", "ss": ss, "base": base, "ts": ts, "at": at, "objs": [obj(p=(1, 2, 3)), obj("Bus", p=(0, 2, 3))],
            "ns": [r.choice([0, 1, 1, 2, 3]) for _ in ts] if r.random() < 0.7 else [r.choice([0, 1])] * len(ts)}


def lookup_from(x):
    return {"k": "lookup", "ss": [0] * len(x["ts"]), "base": 1700000000, "ts": x["ts"], "at": x["at"], "objs": [obj(p=(1, 2, 3))],
            "ns": [(x["at"] + 7 * k) % 3 for k in range(len(x["ts"]))]}
