"""Random cases for filtering, frames and sessions (see spec/Filtering, FrameEval, Manager)."""
import json, math

LABELS = ["Unknown", "Car", "Truck", "Bus", "Bicycle", "Motorbike", "Pedestrian", "Animal"]
FRAMES = ["BaseLink", "Map", "CamFront", "CamBack"]
YAWS = [[1, 0, 0, 0], [-1, 0, 0, 0], [1, 0, 0, 1], [0, 0, 0, 1], [1, 0, 0, -1], [0, 0, 0, -1], [-1, 0, 0, -1],
        [2, 0, 0, 1], [1, 0, 0, 2], [-2, 0, 0, 1], [1, 0, 0, -2], [3, 0, 0, 1], [1, 0, 0, 3], [-1, 0, 0, 3], [3, 0, 0, -1]]


def obj(l="Car", p=(0, 0, 0), h=0, q=(1, 0, 0, 0), s=(4, 8, 4), c=500, n=-1, id="", t=1000000, f="BaseLink", v=()):
    return {"l": l, "p": list(p), "q": list(q), "h": h, "s": list(s), "c": c, "n": n, "id": id, "t": t, "f": f,
            "v": list(v)}


def yaw(r, exact90=False):
    """Orientation: (h, q)."""
    if r.random() < 0.5:
        return r.randrange(8) * 6 if exact90 else r.randrange(48), [1, 0, 0, 0]
    return -1, r.choice(YAWS[:7] if exact90 else YAWS)


def any_q(r):
    while True:
        q = [r.randint(-2, 2) for _ in range(4)]
        if any(q):
            return q


def uuids(r):
    k = r.random()
    if k < 0.45:
        return {"on": False, "ids": []}
    return {"on": True, "ids": [r.choice(["a", "b", "c", "d", "dd", "ab", "A", "<>"]) for _ in range(r.choice([0, 1, 1, 2, 3]))]}


def confidences(r):
    """A store of confidences: mostly all different, sometimes a few values only."""
    confs = list(range(0, 1001))
    if r.random() < 0.3:
        few = r.sample(confs, r.choice([1, 2, 3, 6]))
        confs = [r.choice(few) for _ in confs]
    r.shuffle(confs)
    return confs


def targets(r, pool=None, dup=0.2):
    pool = pool or LABELS
    ls = r.sample(pool, r.randint(1, min(4, len(pool))))
    if r.random() < dup:
        ls.insert(r.randrange(len(ls) + 1), r.choice(ls))
    return ls


COUNTS = [2, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 65541, 1000000, 16777216, 16777217, 2000000001]


def unit(r):
    """Exponent of the length of the lattice unit (metres): mostly a quarter, from a millimetre to 16 m."""
    return -2 if r.random() < 0.6 else r.choice([-10, -9, -7, -5, -3, -1, 0, 2, 4])


def ranks(r):
    """How confidences are written (see harness): mostly thousandths."""
    return r.choice([0, 0, 0, 1, 2, 3, 4])


def degrees(r, near=None):
    """A yaw in whole or tenths of degrees."""
    if near is None or near < 1000:
        return 1000 + r.choice([r.randrange(7200), 10 * r.randrange(720), 10 * r.choice([0, 1, 179, 180, 181, 359, 360, 361, 539, 540, 541, 719])])
    d = r.choice([0, 1, -1, 2, 5, 1799, 1801, 3601, r.randrange(7200), 10 * r.choice([1, -1, 2, 179, 180, 181, 90, 360, 359, r.randrange(720)])])
    return 1000 + (near - 1000 + d) % 7200


INFINITE = 1 << 30     # see Common.tla


def filter_case(r):
    cfg = {"labels": targets(r) if r.random() < 0.97 else [], "mx": r.choice([0, 1, 3, 7, 40, 400]), "my": r.choice([0, 1, 3, 7, 40, 400]),
           "mp": r.choice([-1, 0, 1, 2, 5, r.choice([255, 256, 65535, 65536, 70000, 16777217, 2000000000])]), "uuids": uuids(r)}
    pool = cfg["labels"] + [r.choice(LABELS)]

    if r.random() < 0.15:
        cfg[r.choice(["mx", "my"])] = r.choice([INFINITE, INFINITE, -INFINITE])

    def coord(lim):
        k = r.random()
        if abs(lim) >= INFINITE:
            return r.choice([0, 1, 3000, -3000, 900000000, -900000000, INFINITE, -INFINITE, r.randint(-2000, 2000)])
        if k < 0.03:
            return r.choice([INFINITE, -INFINITE])
        if k < 0.45:
            return r.choice([-1, 1]) * (lim + r.choice([-1, 0, 1]))
        if k < 0.9:
            return r.randint(-lim, lim) // 2
        return r.randint(-2000, 2000)

    objs = []
    for _ in range(r.choice([0, 1, 3, 6, 10])):
        h, q = yaw(r)
        o = obj(r.choice(pool), (coord(cfg["mx"]), coord(cfg["my"]), r.randint(-3000, 3000)), h, q,
                [r.randint(1, 30) for _ in range(3)], r.randint(0, 1000),
                r.choice([-1, 0, 1, max(0, cfg["mp"] - 1), max(0, cfg["mp"]), cfg["mp"] + 1, r.choice(COUNTS)]),
                r.choice(["", "a", "b", "c", "d", "dd", "ddd", "ab", "A", "zz", "<>", " a"]), 1000000 + r.randint(0, 5), r.choice(FRAMES),
                r.choice([(), (1, 2, 3)]))
        objs.append(o)
        if r.random() < 0.1:
            objs.append(dict(o))
    return {"k": "filter", "u": unit(r) if r.random() < 0.7 else r.choice([100, 101]), "cs": ranks(r), "objs": objs, "cfg": cfg, "gt": r.random() < 0.65}


def rotation(o):
    """Rotation matrix of an object, as floats."""
    if o["h"] >= 0:
        a = (o["h"] - 1000) * math.pi / 3600 if o["h"] >= 1000 else o["h"] * math.pi / 24
        w, x, y, z = math.cos(a), 0, 0, math.sin(a)
        if o["q"][0] == 2:     # see Geometry.tla
            (sp, cp), (sr, cr) = ((math.sin(d * math.pi / 360), math.cos(d * math.pi / 360)) for d in o["q"][1:3])
            w, x, y, z = cr*cp*w + sr*sp*z, sr*cp*w - cr*sp*z, cr*sp*w + sr*cp*z, cr*cp*z - sr*sp*w
    else:
        n = math.sqrt(sum(v * v for v in o["q"]))
        w, x, y, z = (v / n for v in o["q"])
    return (w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y), 2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x),
            2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z)


def distinct(gts):
    """Ground truths differ in time, frame, pose, label or ID (the same rotation written differently is
    the same pose)."""
    out, where = [], {}
    for o in gts:
        w = (o["t"], o["f"], tuple(o["p"]), o["l"], o["id"])
        m = rotation(o)
        if all(max(abs(x - y) for x, y in zip(m, n)) > 1e-3 for n in where.get(w, [])):
            where.setdefault(w, []).append(m)
            out.append(o)
    return out


def near(r, o, k=3):
    return [x + r.choice([0, 0, r.randint(-k, k)]) for x in o["p"]]


def frame_case(r, iou=False):
    mode = r.choice(["iou2d", "iou3d"]) if iou else r.choice(["center", "plane", "plane"])
    span = r.choice([2, 6, 20, 60])
    labels = r.sample(LABELS, r.choice([1, 1, 2, 3]))
    exact = mode in ("iou2d", "iou3d", "plane")
    flat = r.random() < 0.12     # boxes without extent

    def box(l=None, p=None):
        if exact:
            q = r.choice(YAWS)
            h = -1
        else:
            h, q = yaw(r)
        s = [r.choice([5, 10, 20]), r.choice([5, 10, 15, 30]), r.randint(1, 8)]
        if mode not in ("iou2d", "iou3d"):
            s = [r.randint(1, 12), r.randint(1, 20), r.randint(1, 8)]
            if flat:
                s = [r.choice([0, x]) for x in s]
        return obj(l or r.choice(labels), p or [r.randint(-span, span) for _ in range(2)] + [r.randint(-2, 2)], h, q, s,
                   r.choice([1000, 500, r.randint(0, 1000)]), r.choice([-1, -1, 0, 1, r.choice(COUNTS)]), r.choice(["", "<>", "a", "b", "c", "d"]), 1000000 + r.choice([0, 0, 7]),
                   r.choice(["BaseLink", "BaseLink", "Map"]))

    gts = distinct([box() for _ in range(r.choice([0, 1, 2, 3, 4, 6]))])
    for g in list(gts):  # twins that differ only in the ID
        if r.random() < 0.15:
            t = dict(g)
            if r.random() < 0.5:
                t["id"] = r.choice(["t1", "t2"])
            else:
                t["h"], t["q"] = (-1, r.choice(YAWS)) if exact else yaw(r)
            gts = distinct(gts + [t])
    r.shuffle(gts)
    ests = []
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        if gts and r.random() < 0.7:
            g = r.choice(gts)
            e = box(g["l"] if r.random() < 0.85 else None, near(r, g))
            if r.random() < 0.5:
                e["h"], e["q"], e["s"] = g["h"], g["q"], g["s"]
            ests.append(e)
        else:
            ests.append(box())
    match = r.random() < 0.7
    pairs = []
    if not match:
        order = list(range(1, len(ests) + 1))
        r.shuffle(order)
        free = list(range(1, len(gts) + 1))
        r.shuffle(free)
        for e in order:
            if r.random() < 0.1:
                continue
            if free and r.random() < 0.75:
                g = free[0]
                if r.random() < 0.93:
                    free.pop(0)
                pairs.append([e, g])
            else:
                pairs.append([e, -1])
    tl = targets(r, list(dict.fromkeys(labels + [r.choice(LABELS)])))
    if mode in ("iou2d", "iou3d"):
        thr = [r.choice([0, 1000, 500, 333, 250, 100, r.randint(0, 1000), r.choice([1001, 1500, 20000, -1, -1000])]) for _ in tl]
    elif mode == "plane":
        thr = [r.choice([0, 1, 2, 5, 10, r.randint(0, 60), r.choice([2000, 2000, -1, INFINITE, -INFINITE])]) for _ in tl]
    else:
        thr = [r.choice([0, 1, 2, 3, 5, r.randint(0, 60), r.choice([2000, 2000, -1, INFINITE, -INFINITE])]) for _ in tl]
    return {"k": "frame", "u": unit(r), "cs": ranks(r), "e": ests, "g": gts, "match": match, "pairs": pairs, "mode": mode, "targets": tl,
            "thr": thr, "look": r.sample(LABELS, 3)}


def far_frame(r):
    """Objects far apart, and distances that differ by the least that they can."""
    labels = r.sample(LABELS, r.choice([1, 1, 2]))
    span = r.choice([300, 2000, 8000])
    gts, ests = [], []
    n = [0]

    def add(to, p):
        n[0] += 1
        to.append(obj(r.choice(labels), p, 0, [1, 0, 0, 0], [r.randint(1, 9) for _ in range(3)], r.randint(0, 1000), -1,
                      "i%d" % n[0]))

    for _ in range(r.choice([1, 1, 2, 3])):
        add(gts, [r.randint(-20, 20) for _ in range(3)])
        if r.random() < 0.8:
            # two estimates at squared distances N and N + 1
            a, b = r.randint(-span, span), r.randint(-span, span)
            if abs(a - b) > 9000:
                b = a - r.randint(-9000, 9000)
            g = gts[-1]["p"]
            two = [[a, b, a - b + 1], [a + 1, b - 1, a - b]]
            r.shuffle(two)
            for v in two:
                r.shuffle(v)
                add(ests, [x + y * r.choice([-1, 1]) for x, y in zip(g, v)])
    for _ in range(r.choice([0, 1, 2])):
        add(r.choice([gts, ests]), [r.randint(-span, span) for _ in range(3)])
    # differences of coordinates are at most 18000 + 40: squares of distances stay within 32 bits
    for o in gts + ests:
        o["p"] = [max(-9000, min(9000, x)) for x in o["p"]]
    if len(gts) > 1 and span == 8000:
        for o in gts:
            o["p"] = [max(-4000, min(4000, x)) for x in o["p"]]
    if r.random() < 0.5:  # the other way round
        gts, ests = ests, gts
    r.shuffle(gts)
    r.shuffle(ests)
    d = [sum((x - y) ** 2 for x, y in zip(e["p"], g["p"])) for e in ests for g in gts]
    d = [x for x in d if x < 2 ** 31 - 1]
    root = math.isqrt(r.choice(d)) if d else 5
    return {"k": "frame", "u": unit(r), "cs": ranks(r), "e": ests, "g": gts, "match": True, "pairs": [], "mode": "center", "targets": labels,
            "thr": [r.choice([root, root + 1, r.randint(0, 20000)]) for _ in labels], "look": labels}


def big_frame(r):
    """Many objects of few labels."""
    n, m = r.randint(8, 14), r.randint(8, 14)
    if r.random() < 0.15:
        n, m = r.randint(20, 45), r.randint(20, 45)
    span = r.choice([3, 8, 30])
    labels = r.sample(LABELS, r.choice([1, 2]))
    mk = lambda i: obj(r.choice(labels), [r.randint(-span, span) for _ in range(3)], 0, [1, 0, 0, 0], [2, 4, 2],
                       r.randint(0, 1000), -1, "i%d" % i)
    return {"k": "frame", "u": unit(r), "cs": ranks(r), "e": [mk(i) for i in range(n)], "g": [mk(i) for i in range(m)], "match": True, "pairs": [],
            "mode": "center", "targets": labels, "thr": [r.randint(0, span) for _ in labels], "look": labels}


# ---------------------------------------------------------------- sessions

def session_case(r, kind=None, frames=None, asks=0.35):
    kind = kind or r.choice(["exact", "exact", "wide", "wide", "perfect", "perfect", "silent", "empty"])
    labels = r.sample(LABELS, r.choice([1, 2, 2, 3]))
    tl = targets(r, labels) if r.random() < 0.5 else list(labels)
    if r.random() < 0.25:
        tl.insert(r.randrange(len(tl) + 1), r.choice(tl + [r.choice(LABELS)]))
    limit = r.choice([40, 60])
    cfg = {"labels": tl, "mx": limit, "my": limit, "mp": r.choice([-1, 0, 1, 3]), "uuids": uuids(r) if r.random() < 0.2 else {"on": False, "ids": []},
           "task": "Detection" if r.random() < 0.93 else r.choice(["Tracking", "Prediction"]),
           "tc": r.choice([1, 2, 4, 6, 12]), "tp": r.choice([2, 4, 8, 16])}
    if kind not in ("perfect", "silent") and r.random() < 0.06:     # nothing can be that near
        cfg[r.choice(["tc", "tp"])] = r.choice([0, -1, -40])
    if r.random() < 0.08:     # no limit at all
        cfg[r.choice(["mx", "my"])] = INFINITE
    if kind == "wide":
        cfg["tp"] = 4000
        cfg["tc"] = r.choice([2, 4, 8, 4000]) if r.random() < 0.92 else r.choice([0, -1, -40, INFINITE, INFINITE])
        if r.random() < 0.1:
            cfg["tp"] = INFINITE
    if kind == "perfect" and r.random() < 0.1:
        cfg[r.choice(["tc", "tp"])] = INFINITE
    fine = kind in ("wide", "perfect") and r.random() < 0.5
    flat = r.random() < 0.06
    tilts = kind in ("wide", "perfect") and r.random() < 0.4
    tilt = lambda: [2, r.choice([0, 1, -5, 30, -60, 85, -85]), r.choice([0, 2, -10, 45, 90, 135, 180, -120]), 0] if tilts and r.random() < 0.7 else [1, 0, 0, 0]
    confs = confidences(r)
    if frames is not None and frames > 12:
        confs = confs * (frames // 12 + 1)
        r.shuffle(confs)
    nf = frames if frames is not None else r.choice([0, 1, 1, 2, 3, 4])
    ops = []
    times = [1000000 * (k + 1) for k in range(nf)]
    if r.random() < 0.4:
        times = [r.choice([1000000, 1000001, 1000400, 2000000, 500000, 1000000 * (k + 1)]) for k in range(nf)]
    perfect_extra = None
    if kind == "perfect" and r.random() < 0.4:
        rest = [l for l in LABELS if l not in labels]
        perfect_extra = r.choice(rest)
        if r.random() < 0.7:
            tl.append(perfect_extra)
    for k in range(nf):
        h = lambda: (degrees(r) if fine else r.randrange(48) if kind in ("wide", "perfect") else 6 * r.randrange(8))
        span = r.choice([4, 12, 35])

        def gt(i):
            inside = kind == "perfect"
            l = r.choice(tl if inside and perfect_extra is None else [x for x in tl if x != perfect_extra] if inside else labels)
            p = [r.randint(-span, span), r.randint(-span, span), r.randint(-2, 2)]
            if not inside and r.random() < 0.1:
                p[r.randrange(2)] = r.choice([-1, 1]) * (limit + r.choice([-1, 0, 1, 9]))
            n = r.choice([-1, 3, 8]) if inside else r.choice([-1, 0, 1, 2, 3, 8])
            i_d = (r.choice(cfg["uuids"]["ids"]) if cfg["uuids"]["ids"] else "zz") if inside and cfg["uuids"]["on"] else r.choice(["", "a", "b", "c", "d", "dd"])
            return obj(l, p, h(), tilt(), [r.choice([0, 0, 3]) if flat else r.randint(1, x) for x in (10, 20, 8)], confs.pop(), n, i_d,
                       1000000 * (k + 1))

        gts = [] if (kind == "empty" and r.random() < 0.7) else [gt(i) for i in range(r.choice([0, 1, 2, 3, 5]))]
        if kind == "perfect":
            if cfg["uuids"]["on"] and not cfg["uuids"]["ids"]:
                gts = []
            seen, uniq = set(), []
            for g in gts:
                if tuple(g["p"]) not in seen:
                    seen.add(tuple(g["p"]))
                    uniq.append(g)
            gts = uniq
        else:
            for g in list(gts):     # the same place, another heading or ID
                if r.random() < 0.08:
                    gts.append(dict(g, h=h(), c=confs.pop()))
                elif r.random() < 0.05:
                    gts.append(dict(g, id=r.choice(["x", "y"]), c=confs.pop()))
            gts = distinct(gts)
        ests = []
        if kind == "silent":
            pass
        elif kind == "perfect":
            ests = [dict(g) for g in gts]
            if perfect_extra is not None:
                for _ in range(r.randint(0, 3)):
                    e = gt(0)
                    e["l"] = perfect_extra
                    if gts and r.random() < 0.6:
                        e["p"] = list(r.choice(gts)["p"])
                    ests.insert(r.randrange(len(ests) + 1), e)
        else:
            for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
                if gts and r.random() < 0.75:
                    g = r.choice(gts)
                    e = gt(0)
                    e["l"] = g["l"] if r.random() < 0.85 else e["l"]
                    e["p"] = near(r, g, 3)
                    if r.random() < 0.5:
                        e["s"] = g["s"]
                    if r.random() < 0.3:
                        e["h"] = g["h"]
                    elif fine:
                        e["h"] = degrees(r, g["h"])
                    elif r.random() < 0.3:
                        e["h"] = (g["h"] + r.choice([24, 12, 6, 18])) % 48
                    ests.append(e)
                else:
                    ests.append(gt(0))
            if r.random() < 0.15:
                for e in ests:
                    e["id"] = ""
        ops.append({"op": "add", "e": ests, "g": gts, "t": times[k]})
        k2 = r.random()
        if k2 < 0.06:     # the same frame again
            ops.append(json.loads(json.dumps(ops[-1])))
        elif k2 < 0.12 and kind not in ("perfect", "silent"):   # its ground truth again, with other estimates
            again = json.loads(json.dumps(ops[-1]))
            again["e"] = []
            ops.append(again)
        elif k2 < 0.18:   # another time for the same objects
            again = json.loads(json.dumps(ops[-1]))
            again["t"] += r.choice([-1, 1, 500, 100000])
            ops.append(again)
        if r.random() < asks:
            ops.append({"op": "query"})
    if r.random() < 0.2 or nf == 0:
        ops.insert(0, {"op": "query"})
    ops.append({"op": "query"})
    if r.random() < 0.4:
        ops.append({"op": "query"})
    if r.random() < 0.2:
        rearranged(r, ops)
    return {"k": "session", "u": unit(r), "cs": ranks(r), "cfg": cfg, "ops": ops}


def rearranged(r, ops):
    """The caller takes frames out of the manager, or turns their order."""
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(1, len(ops))
        added = len([o for o in ops[:k] if o["op"] == "add"])
        some = [{"op": "keep", "n": r.choice([0, added - 1, added // 2, added, r.randint(0, added)])} if r.random() < 0.8 else {"op": "turn"}]
        some[0]["n"] = max(0, some[0].get("n", 0))
        if r.random() < 0.5:
            some.append({"op": "query"})
        ops[k:k] = some


def long_session(r):
    """Many frames with few objects each."""
    return session_case(r, r.choice(["exact", "wide", "perfect"]), r.randint(6, 10))


def endless_session(r):
    """A drive of many frames, asked for scores a few times."""
    return session_case(r, r.choice(["exact", "wide", "perfect"]), r.choice([20, 33, 65, 101, 130, 260, r.randint(40, 110)]), 0.02)


def huge_frame(r):
    """Hundreds of objects."""
    n, m = r.choice([65, 100, 129, 257, 300]), r.choice([65, 100, 129, 257, 300])
    if r.random() < 0.3:
        m = r.choice([0, 1, 3])
    span = r.choice([20, 200, 3000])
    labels = r.sample(LABELS, r.choice([1, 2, 3]))
    mk = lambda i: obj(r.choice(labels), [r.randint(-span, span) for _ in range(3)], 0, [1, 0, 0, 0], [2, 4, 2],
                       r.randint(0, 1000), -1, "i%d" % i)
    return {"k": "frame", "u": unit(r), "cs": ranks(r), "e": [mk(i) for i in range(n)], "g": [mk(i) for i in range(m)], "match": True, "pairs": [],
            "mode": "center", "targets": labels, "thr": [r.randint(0, span) for _ in labels], "look": labels}


def dense_session(r):
    """Frames with many objects of few labels."""
    labels = r.sample(LABELS, r.choice([1, 1, 2]))
    span = r.choice([6, 20, 50])
    confs = confidences(r)
    mk = lambda: obj(r.choice(labels), [r.randint(-span, span) for _ in range(3)], degrees(r), [1, 0, 0, 0],
                     [r.randint(1, 9) for _ in range(3)], confs.pop(), r.choice([-1, 1, 5]), "")
    ops = []
    for k in range(r.choice([1, 1, 2, 3])):
        g = [dict(mk(), id="g%d" % i) for i in range(r.randint(5, 25))]
        e = [mk() for _ in range(r.randint(5, 25))]
        for x in e:
            if r.random() < 0.6:
                y = r.choice(g)
                x["l"], x["p"], x["h"] = y["l"], near(r, y, 2), degrees(r, y["h"])
        ops.append({"op": "add", "e": e, "g": g, "t": 1000000 * (k + 1)})
    ops.append({"op": "query"})
    t = r.choice([1, 2, 3, 6, 20])
    return {"k": "session", "u": unit(r), "cs": ranks(r), "ops": ops,
            "cfg": {"labels": labels, "mx": 60, "my": 60, "mp": r.choice([-1, 0, 1]), "uuids": {"on": False, "ids": []}, "task": "Detection",
                    "tc": t, "tp": 4000}}


def crowded_session(r):
    """Hundreds of results of one label."""
    label = r.choice(LABELS)
    span = r.choice([20, 50])
    confs = confidences(r)
    mk = lambda: obj(label, [r.randint(-span, span) for _ in range(3)], degrees(r), [1, 0, 0, 0],
                     [r.randint(1, 9) for _ in range(3)], confs.pop(), r.choice([-1, 1, 5]), "")
    ops = []
    frames = r.choice([1, 2, 3])
    for k in range(frames):
        g = [dict(mk(), id="g%d" % i) for i in range(r.choice([1, 5, 20, 100]))]
        e = [mk() for _ in range(r.choice([260, 300]) // frames + r.randint(0, 9))]
        for x in e:
            if r.random() < 0.5:
                y = r.choice(g)
                x["p"], x["h"] = near(r, y, 2), degrees(r, y["h"])
        ops.append({"op": "add", "e": e, "g": g, "t": 1000000 * (k + 1)})
    ops.append({"op": "query"})
    return {"k": "session", "u": unit(r), "cs": ranks(r), "ops": ops,
            "cfg": {"labels": [label] + r.choice([[], ["Car"], ["Bus", "Animal"]]), "mx": 60, "my": 60, "mp": r.choice([-1, 0, 1]),
                    "uuids": {"on": False, "ids": []}, "task": "Detection", "tc": r.choice([1, 2, 3, 6, 20]), "tp": 4000}}


def fleet_session(r):
    """Several managers at once: interleaved, copied, or each in a thread of its own."""
    n = r.choice([2, 2, 3, 4])
    parts = [session_case(r, frames=r.choice([1, 2, 2, 3])) for _ in range(n)]
    for k in range(1, n):
        if r.random() < 0.5:     # the same objects under another configuration
            parts[k] = {"cfg": parts[k]["cfg"], "ops": json.loads(json.dumps(parts[0]["ops"]))}
            if r.random() < 0.7:
                parts[k]["cfg"]["labels"] = list(parts[0]["cfg"]["labels"])
                r.shuffle(parts[k]["cfg"]["labels"])
    cfgs = [p["cfg"] for p in parts]
    queues = [list(p["ops"]) for p in parts]
    par = r.random() < 0.4
    ops = []
    while any(queues):
        m = r.choice([k for k in range(len(queues)) if queues[k]])
        for _ in range(r.choice([1, 1, 2])):
            if queues[m]:
                ops.append(dict(queues[m].pop(0), m=m + 1))
        if not par and len(cfgs) < 6 and r.random() < 0.15:
            cfgs.append(dict(cfgs[m]))
            ops.append({"op": "fork", "m": m + 1, "to": len(cfgs)})
            rest = json.loads(json.dumps(queues[m]))     # the copy goes on as the original, or otherwise
            queues.append(rest if r.random() < 0.3 else [x for x in rest if r.random() < 0.5] + [{"op": "query"}])
    for k in range(len(cfgs)):
        ops.append({"op": "query", "m": k + 1})
    return {"k": "session", "u": unit(r), "cs": ranks(r), "cfgs": cfgs, "ops": ops, "par": par}


def lively(make):
    """The same cases, half of them with moving objects, seen at times (and in coordinate frames) of their own."""
    def one(r):
        c = make(r)
        if r.random() < 0.5:
            return c
        seen, frames = {}, r.choice([None, ["Map"], FRAMES]) if c["k"] == "session" else None
        speeds = [(), (0, 0, 0), (1, 2, 3), tuple(r.randint(-40, 40) for _ in range(3)), (r.randint(-9, 9), 0, 0)]
        if r.random() < 0.4:     # all move alike, at one time
            speeds = [r.choice(speeds[1:])]
            later = [r.choice([0, 1000000])]
        else:
            later = [0, 0, 100000, 500000, 1000000, 3000000, -2000000, 10 ** 9]
        for part in [c] if c["k"] == "frame" else [o for o in c["ops"] if o["op"] == "add"]:
            for o in part["e"] + part["g"]:
                key = json.dumps(o, sort_keys=True)      # equal objects remain equal, others different
                if key not in seen:
                    f = r.choice(frames) if frames else o["f"]
                    seen[key] = {"v": list(r.choice(speeds)), "t": o["t"] + r.choice(later), "f": f}
                o.update(seen[key])
        return c
    return one


# ---------------------------------------------------------------- enumerated by TLC

def frames_from(lists):
    """Gen_Frame: lists of estimates and ground truths on a line."""
    out = []
    for n, c in enumerate(lists):
        e = [obj(o["l"], (o["x"], 0, 0), id=["", "g1", "e"][(n + k) % 3], c=900 - 100 * k) for k, o in enumerate(c["e"])]
        g = [obj(o["l"], (o["x"], 0, 0), id="g%d" % (k + 1)) for k, o in enumerate(c["g"])]
        out.append({"k": "frame", "u": -2, "cs": 0, "e": e, "g": g, "match": True, "pairs": [], "mode": ["center", "plane"][n % 2],
                    "targets": ["Car", "Bus"], "thr": [n % 3, (n // 3) % 3], "look": ["Car", "Bus", "Truck"]})
    return out


def filters_from(lines):
    """Gen_Filter: every configuration meets every object."""
    objs = [obj(o["l"], (o["x"], o["y"], 0), n=o["n"], id=o["id"]) for x in lines if "objs" in x for o in x["objs"]]
    out = []
    for x in lines:
        if "cfg" in x:
            c = x["cfg"]
            cfg = {"labels": c["labels"], "mx": c["mx"], "my": c["my"], "mp": c["mp"], "uuids": {"on": c["on"], "ids": c["ids"]}}
            out += [{"k": "filter", "u": -2, "cs": 0, "objs": objs[k:k + 90], "cfg": cfg, "gt": c["gt"]} for k in range(0, len(objs), 90)]
    return out


def sessions_from(lists):
    """Gen_Session: histories of kinds of frames, with scores asked for after every one."""
    def frame(kind, k):
        car, bus = obj(p=(4, 4, 0), id="g1"), obj("Bus", (-8, 4, 0), id="g2")
        at = lambda o, dx, h, c: dict(o, p=[o["p"][0] + dx, o["p"][1], 0], h=h, c=c, id="")
        return {"nothing": ([], []), "hit": ([at(car, 1, 0, 900 - k)], [car]), "turned": ([at(car, 0, 12, 700 - k)], [car]), "miss": ([], [car]),
                "alarm": ([at(car, 30, 0, 800 - k)], []), "bus": ([at(bus, 0, 6, 600 - k)], [bus]),
                "both": ([at(bus, 1, 24, 500 - k), at(car, 2, 0, 650 - k), at(car, 1, 6, 400 - k)], [car, bus])}[kind]
    out = []
    for n, x in enumerate(lists):
        ops = [{"op": "query"}] if n % 4 == 0 else []
        for k, kind in enumerate(x["frames"]):
            e, g = json.loads(json.dumps(frame(kind, k)))
            ops += [{"op": "add", "e": e, "g": g, "t": 1000000 * (k + 1)}]
            if n % 3 == 0:
                ops += [{"op": "query"}]
        ops += [{"op": "query"}]
        out.append({"k": "session", "u": -2, "cs": 0, "ops": ops,
                    "cfg": {"labels": ["Car", "Bus"], "mx": 60, "my": 60, "mp": -1, "uuids": {"on": False, "ids": []}, "task": "Detection",
                            "tc": [2, 4][n % 2], "tp": 4000}})
    return out
