"""Whole runs: a scenario file, the dataset it names, estimates over time (see spec/System)."""
import json, os, random
from . import gen_config as gc, gen_data as gd, report
from .gen_eval import obj, LABELS, degrees, ranks

DEN = 8                       # lengths of the scenario and the estimates: eighths of a metre; the dataset has quarters
QUARTERS = [[1, 0, 0, 0], [0, 0, 0, 1], [1, 0, 0, 1], [1, 0, 0, -1], [-1, 0, 0, 0], [-1, 0, 0, 1], [-1, 0, 0, -1], [0, 0, 0, -1]]
ID = gd.CODES["instance"] * 12
CATS = ["car", "vehicle.car", "truck", "vehicle.bus.rigid", "bicycle", "vehicle.motorcycle", "human.pedestrian.adult", "animal",
        "movable_object.barrier", "Vehicle.Car", "spaceship"]
SEEN = {"car": "Car", "vehicle.car": "Car", "truck": "Truck", "vehicle.bus.rigid": "Bus", "bicycle": "Bicycle", "vehicle.motorcycle": "Motorbike",
        "human.pedestrian.adult": "Pedestrian", "animal": "Animal"}


def turn(q, v, inverse=False):
    """A quarter turn about z of an integer vector."""
    w, z = q[0], q[3] * (-1 if inverse else 1)
    n = w * w + z * z
    c, s = (w * w - z * z) // n, 2 * w * z // n
    return [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]]


def mul(p, q):
    return [p[0] * q[0] - p[3] * q[3], 0, 0, p[0] * q[3] + p[3] * q[0]]


def tables(r):
    T = {t: [] for t in gd.CODES}
    num = {t: r.sample(range(1, 60), 40) for t in gd.CODES}

    def add(table, **f):
        x = dict(t=num[table].pop(), **f)
        T[table].append(x)
        return x
    cats = [add("category", name=r.choice(CATS)) for _ in range(r.randint(1, 4))]
    sensors = [add("sensor", mod=m) for m in ["lidar"] + [r.choice(["lidar", "camera", "radar"]) for _ in range(r.randint(0, 2))]]
    css = [add("cs", sensor=s["t"], q=r.choice(QUARTERS), tr=gd.pos(r, 20)) for s in sensors]
    logs = [add("log") for _ in range(r.randint(1, 2))]
    step = r.choice([1000, 20000, 50000, 70000, 100000])
    times = r.sample(range(0, 12), 12)
    samples = []
    for _ in range(r.choice([1, 1, 1, 2])):
        sc = add("scene", log=r.choice(logs)["t"])
        ts = sorted(times.pop() * step + r.choice([0, 0, 1, 500, 999]) for _ in range(r.choice([1, 2, 3, 4])))
        own = [add("sample", ts=t, scene=sc["t"]) for t in sorted(set(ts))]
        gd.link(own)
        sc.update(n=len(own), first=own[0]["t"], last=own[-1]["t"])
        samples += own
    seen = set()
    for s in samples:      # distinct times
        while s["ts"] in seen:
            s["ts"] += 1
        seen.add(s["ts"])
    poses = {}
    home = gd.pos(r, 30)
    for s in samples:
        c = [x for x in css if [y for y in sensors if y["t"] == x["sensor"]][0]["mod"] == "lidar"]
        e = add("ego", ts=s["ts"], q=r.choice(QUARTERS), p=[a + r.randint(-4, 4) for a in home])
        poses[s["t"]] = e
        if r.random() < 0.95:
            add("sd", sample=s["t"], ego=e["t"], cs=r.choice(c)["t"], ts=s["ts"], key=True, prev=0, next=0)
        for x in css:
            if r.random() < 0.4:      # other recordings, with poses of their own
                mod = [y for y in sensors if y["t"] == x["sensor"]][0]["mod"]
                t = s["ts"] + (r.choice([1, -1, 1000, 40000]) if mod == "lidar" else r.choice([0, 0, 1, -1000]))
                e2 = add("ego", ts=t, q=r.choice(QUARTERS), p=[a + r.randint(-9, 9) for a in home]) if num["ego"] else e
                add("sd", sample=s["t"], ego=e2["t"], cs=x["t"], ts=t, key=r.random() < 0.5, prev=0, next=0)
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        own = sorted(r.sample(samples, r.randint(1, len(samples))), key=lambda s: s["ts"])
        inst = add("instance", cat=r.choice(cats)["t"])
        size = [r.randint(1, 12) for _ in range(3)]
        anns = []
        for s in own:
            e = poses[s["t"]]
            rel = [r.randint(-30, 30), r.randint(-30, 30), r.randint(-4, 4)]     # seen from the vehicle
            q = mul(e["q"], r.choice(QUARTERS))
            anns.append(add("ann", sample=s["t"], inst=inst["t"], attrs=[], vis=0, p=[a + b for a, b in zip(e["p"], turn(e["q"], rel))], q=q,
                            s=size, pts=r.choice([0, 1, 2, 5, 9, 1000])))
        gd.link(anns)
        inst.update(n=len(anns), first=anns[0]["t"], last=anns[-1]["t"])
    for t in T:
        r.shuffle(T[t])
    return T


def seen_at(T, s):
    """What is around the vehicle at a sample, as (label, position, heading, size, instance)."""
    by = lambda table, t: [x for x in T[table] if x["t"] == t][0]
    lid = [x for x in T["sd"] if x["sample"] == s["t"] and x["ts"] == s["ts"]
           and by("sensor", by("cs", x["cs"])["sensor"])["mod"] == "lidar"]
    if not lid:
        return []
    e = by("ego", lid[0]["ego"])
    out = []
    for a in T["ann"]:
        if a["sample"] != s["t"]:
            continue
        p = turn(e["q"], [x - y for x, y in zip(a["p"], e["p"])], True)
        q = mul([e["q"][0], 0, 0, -e["q"][3]], a["q"])
        n = q[0] * q[0] + q[3] * q[3]
        c, sn = (q[0] * q[0] - q[3] * q[3]) // n, 2 * q[0] * q[3] // n
        h = {(1, 0): 24, (0, 1): 6, (-1, 0): 12, (0, -1): 18}[(c, sn)]
        name = by("category", by("instance", a["inst"])["cat"])["name"]
        out.append((SEEN.get(name.lower(), "Unknown"), [2 * x for x in p], h, [2 * x for x in a["s"]], a["inst"]))
    return out


def system_case(r):
    T = tables(r)
    broken = r.random()
    files = {}
    if broken < 0.06:
        files[r.choice(list(gd.CODES))] = r.choice(gd.FAULTS)
    elif broken < 0.12:
        gd.mutate(r, T)
    d = gd.case(r, T, True, files)
    f = gc.config_file(r)
    if r.random() < 0.9:
        f["fault"], f["task"], f["frame"] = "", r.choice(["detection"] * 8 + ["Detection", "tracking"]), r.choice(gc.FRAMES)
    names = list(dict.fromkeys([c["name"] for c in T["category"]] + [r.choice(gc.NAMES)]))
    r.shuffle(names)
    insts = [x["t"] for x in T["instance"]]
    f.update(den=DEN, labels=names[:r.choice([1, 2, 3, 4])], sets=[{"path": "", "version": "v1" if r.random() < 0.95 else r.choice(["v2", "", "v1/x"])}],
             mx=r.choice([301, 121, 81, 41]), my=r.choice([301, 121, 81, 41]), tc=r.choice([1, 5, 9, 17, 33]), tp=r.choice([3, 9, 17, 33, 65, 4001]),
             mp=r.choice([-1, -1, 0, 1, 2, 5]), t2=500, t3=500,
             uuids={"on": False, "ids": []} if r.random() < 0.75 or not insts else
                   {"on": True, "ids": ["%s%08d" % (ID, r.choice(insts)) for _ in range(r.choice([1, 2, 3]))]})
    f["salt"], f["raw"], f["probes"] = r.randrange(1 << 30), False, []
    ops, confs = [], r.sample(range(1, 999), 200)
    kind = r.choice(["near", "near", "near", "copies", "silent"])
    samples = sorted(T["sample"], key=lambda s: s["ts"])
    if r.random() < 0.3:
        r.shuffle(samples)
    for s in samples:
        if r.random() < 0.15:
            continue
        try:
            around = seen_at(T, s)
        except (IndexError, KeyError):
            around = []
        ests = []
        if kind == "copies":
            ests = [obj(l, p, h, s=sz, c=confs.pop()) for l, p, h, sz, _ in around]
        elif kind == "near":
            for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
                l, p, h, sz, i = r.choice(around) if around and r.random() < 0.8 else \
                    (r.choice(LABELS), [2 * r.randint(-30, 30), 2 * r.randint(-30, 30), 0], 6, [4, 8, 4], 0)
                ests.append(obj(l if r.random() < 0.9 else r.choice(LABELS), [x + 2 * r.choice([0, 0, 1, -1, 2, -3]) for x in p],
                                r.choice([h, h, 6 * r.randrange(1, 8), (h + 12) % 24 or 24, degrees(r)]), s=sz if r.random() < 0.7 else [r.randint(1, 20) for _ in range(3)],
                                c=confs.pop(), id=r.choice(["", "x"]), f=r.choice(["BaseLink", "Map"])))
        for e in ests:
            e["t"] = 1000000
        gap = r.choice([0, 0, 0, 1, -1, 1000, -1000, 30000, -30000, 74000, 75000, -75000, 74999, -76000, r.randint(-200000, 200000)])
        ops.append({"op": "frame", "at": s["ts"] + gap, "e": ests})
        if r.random() < 0.1:
            ops.append(dict(ops[-1]))
        if r.random() < 0.3:
            ops.append({"op": "query"})
    ops.append({"op": "query"})
    c = {"k": "pipeline", "f": f, "d": d, "ops": ops, "cs": ranks(r)}
    if r.random() < 0.25:       # another scenario and dataset were at the same place before
        g = dict(f, mx=r.choice([41, 301]), tc=r.choice([1, 33]), tp=r.choice([3, 65]), labels=f["labels"][:1] + r.sample(names, 1))
        c["before"] = [{"f": r.choice([g, f]), "d": dict(d, tables=gd.variant(r, T)), "ops": ops, "cs": c["cs"]}]
    return c


def prepare(ctx, c, place=None):
    d = c["d"]
    if c.get("before") and not place:
        place = {"root": ctx.path("at"), "scenario": ctx.path("at.yaml")}
    root = gd.write(ctx, d, random.Random(d["salt"]))
    f = json.loads(json.dumps(c["f"]))
    for s in f["sets"]:
        s["path"] = place["root"] if place else root
    f["uuids"]["ids"] = [gd.tok("instance", int(i[-8:]), lay=d.get("lay", 0)) for i in f["uuids"]["ids"]]   # as the dataset writes them
    c["there"] = f["sets"][0]["version"] == "v1"
    base = ctx.path("run")
    os.makedirs(base)
    path = os.path.join(base, "s.yaml")
    if f["fault"] == "directory":
        os.mkdir(path)
    elif f["fault"] == "binary":
        open(path, "wb").write(b"\xff\xfe\x00\x01")
    elif f["fault"] != "missing":
        open(path, "w").write(gc.yaml(random.Random(f["salt"]), f))
    earlier = {"place": place, "before": [prepare(ctx, b, place) for b in c["before"]]} if c.get("before") else {}
    return {**earlier, "k": "pipeline", "id": c.get("id", 0), "scenario": path, "root": root, "dir": os.path.join(base, "out"), "base": d["base"], "u": 1000 + DEN, "cs": c["cs"],
            "ops": c["ops"]}


def slim(c):
    return {"f": {k: v for k, v in c["f"].items() if k not in ("salt", "probes")}, "d": gd.slim(c["d"]), "there": c["there"], "ops": c["ops"]}


def post(c, obs):
    return dict(obs, steps=[report.parsed(s) if s["op"] == "query" else s for s in obs["steps"]])
