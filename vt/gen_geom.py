"""Random boxes, quaternions and vectors (see spec/Geometry)."""
from .gen_eval import LABELS, YAWS, FRAMES, obj, unit

LEN5 = [q for q in YAWS if sum(x * x for x in q) > 2]


def pose_yaw(r, kinds="any"):
    k = r.random()
    if kinds == "h":
        return r.randrange(48), [1, 0, 0, 0]
    if k < 0.35:
        return 6 * r.randrange(8), [1, 0, 0, 0]
    return -1, r.choice(YAWS)


def norm2(o):
    q = [1, 0, 0, 0] if o["h"] >= 0 else o["q"]
    if o["h"] >= 0:
        return 1 if (o["h"] // 6) % 2 == 0 else 2
    return sum(x * x for x in q)


def score_case(r, overlap=False):
    def box(center=None, span=0):
        h, q = pose_yaw(r)
        if overlap:
            s = [5 * r.randint(1, 5), 5 * r.randint(1, 7), r.randint(1, 12)]
        else:
            s = [r.randint(1, 16), r.randint(1, 30), r.randint(1, 12)]
        c = center or [0, 0, 0]
        p = [c[0] + r.randint(-span, span), c[1] + r.randint(-span, span), c[2] + r.randint(-3, 3)]
        return obj("Car", p, h, q, s)

    a = box(span=r.choice([0, 3, 20, 60]))
    k = r.random()
    if k < 0.12:
        b = dict(a)
        if r.random() < 0.5:  # the same box, turned by half or a quarter
            b["h"], b["q"] = pose_yaw(r)
    elif k < 0.3:
        b = box(a["p"], 2)
    elif k < 0.85:
        b = box(a["p"], r.choice([5, 12, 25]))
    else:
        b = box(None, 60)
    if overlap and r.random() < 0.3:  # edges on common lines, touching or shared
        b["h"], b["q"] = a["h"], a["q"]
        if r.random() < 0.5:
            b["s"] = list(a["s"])
        d = r.choice([0, 5, 10])
        b["p"] = [a["p"][0] + r.choice([0, d, -d]), a["p"][1] + r.choice([0, d, -d]), a["p"][2] + r.choice([0, 1, 5])]
    if overlap and r.random() < 0.06:     # without extent in some direction
        k = r.randrange(3)
        for o in r.choice([[a], [b], [a, b]]):
            o["s"] = [0 if j == k else x for j, x in enumerate(o["s"])]
    if not overlap and r.random() < 0.12:     # a common corner
        for o in (a, b):
            o["h"], o["q"] = -1, r.choice([YAWS[0], YAWS[1], YAWS[3], YAWS[5]])
            o["s"] = [2 * ((x + 1) // 2) for x in o["s"]]
        b["p"] = [x + r.choice([-1, 1]) * (m + r.choice([-1, 1]) * n) // 2 for x, m, n in zip(a["p"], (a["s"][1], a["s"][0], 0), (b["s"][1], b["s"][0], 0))]
    if not overlap and r.random() < 0.08:
        for o in r.choice([[a], [b], [a, b]]):
            o["s"] = [r.choice([0, 0, x]) for x in o["s"]]
    if r.random() < 0.15:  # on top of each other
        b["p"] = [a["p"][0], a["p"][1], a["p"][2] + (a["s"][2] + b["s"][2]) // 2 + r.choice([-1, 0, 1])]
    # keep the squares of scaled coordinates within 32 bits
    if norm2(a) * norm2(b) > 25:
        for o in (a, b):
            o["p"] = [max(-50, min(50, x)) for x in o["p"]]
    if r.random() < 0.1:     # far from the origin
        if overlap:
            far = [r.choice([-1, 1]) * r.randint(10000, 400000) for _ in range(3)]
            for o in (a, b):
                o["p"] = [x + y for x, y in zip(o["p"], far)]
        else:
            for o in (a, b):
                o["h"], o["q"] = 6 * r.randrange(8), [1, 0, 0, 0]
                o["p"] = [r.randint(-1000, 1000) for _ in range(2)] + [r.randint(-300, 300)]
    elif r.random() < 0.15:
        # symmetric about an axis: equally near corners
        a["p"][r.randrange(2)] = 0
    ax, bx = dict(a), dict(b)
    for o in (ax, bx):
        o.update(l=r.choice(LABELS), c=r.randint(0, 1000), n=r.choice([-1, 0, 5]), id=r.choice(["", "u", "w"]),
                 t=r.choice([0, 1000000, 77]), f=r.choice(FRAMES), v=r.choice([[], [1, 2, 3]]))
    d2 = sum((x - y) ** 2 for x, y in zip(a["p"], b["p"]))
    root = int(d2 ** 0.5)
    thr = [["center", t] for t in {0, root, root + 1, r.randint(0, 60)}]
    thr += [["plane", t] for t in {0, min(root, 1998), min(root + 1, 1999), r.randint(0, 60)} | ({2000} if root < 500 else set())]
    thr += [[m, t] for m in ("iou2d", "iou3d") for t in {0, 1000, 500, r.choice([200, 250, 333, 600]), r.randint(0, 1000)}]
    if overlap and r.random() < 0.3:     # coordinates that no float holds exactly: equality with a threshold is not decided
        return {"k": "score", "u": r.choice([101, 1003, 1007, 1010, 1030, 1100]), "a": a, "b": b, "ax": ax, "bx": bx, "thr": []}
    # Now and then boxes of micrometres: what is small has a shape all the same.
    u = r.choice([-13, -15, -18, -21]) if r.random() < 0.05 else unit(r)
    return {"k": "score", "u": u, "a": a, "b": b, "ax": ax, "bx": bx, "thr": thr}


def steep_q(r):
    """Close to a half turn about some axis, or to no turn."""
    k = r.choice([-1, 1]) * r.choice([7, 20, 48, 60, 101, 200, 300])
    q = r.choice([[1, 0, 0, k], [-1, 0, 0, k], [k, 0, 0, 1], [1, r.randint(-2, 2), r.randint(-2, 2), k],
                  [1, k, 0, 0], [1, 0, k, r.choice([0, 1, -1])], [k, 0, 1, 0], [k, 1, -1, 1], [0, 1, 0, k], [0, 0, 1, k]])
    return q


def qmul(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return [a*e - b*f - c*g - d*h, a*f + b*e + c*h - d*g, a*g - b*h + c*e + d*f, a*h + b*g - c*f + d*e]


def climb_q(r):
    """Turned up or down by nearly (not exactly) 90 degrees, after a roll and before a turn about the vertical."""
    a = r.choice([10, 20, 29, 40, 60, 99, 150, 400, 1000])
    p = [a + 1, 0, r.choice([-1, 1]) * a, 0]
    if r.random() < 0.3:
        p[0], p[2] = p[2], p[0]
    yaw = r.choice([[1, 0, 0, 0], [2, 0, 0, 1], [1, 0, 0, -2], [1, 0, 0, 1], [3, 0, 0, 1], [0, 0, 0, 1], [-1, 0, 0, 3]])
    roll = r.choice([[1, 0, 0, 0], [1, 0, 0, 0], [1, 1, 0, 0], [2, -1, 0, 0], [0, 1, 0, 0]])
    return qmul(yaw, qmul(p, roll))


QUARTERS = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [1, 0, 0, 1], [1, 0, 0, -1], [1, 1, 0, 0], [1, 0, -1, 0], [1, 1, 1, 1], [-1, 1, 1, 1],
            [0, 1, 1, 0], [0, 0, 1, -1]]


def small_turn(r):
    """All but no turn: q1 turns by two parts in n."""
    n = r.choice([10000, 23000, 40000, 100000, 300000, 1000000, 3000000])
    axis = [0, 0, 0]
    for i in r.sample(range(3), r.choice([1, 1, 2])):
        axis[i] = r.choice([-1, 1])
    big = max(1, min(5000, n // 2000 * r.choice([1, 3, 10])))
    vec = lambda: [r.randint(-big, big) for _ in range(3)]
    # longer vectors are observed in units that f64 still holds with all digits
    return {"k": "math", "wide": True, "u": r.choice([0, -10, -3, -14, 5]), "q1": [r.choice([-1, 1]) * n] + axis, "q2": r.choice(QUARTERS),
            "v": vec(), "w": vec()}


def math_case(r):
    if r.random() < 0.08:
        return small_turn(r)

    def q():
        k = r.random()
        if k < 0.25:  # vertical pitch: 2 |wy - xz| = |q|^2
            a, b, s = r.randint(-3, 3), r.randint(-3, 3), r.choice([-1, 1])
            return [a, -s * b, s * a, b] if (a or b) else [1, 0, s, 0]
        if k < 0.45:
            return r.choice(YAWS)
        while True:
            v = [r.randint(-4, 4) for _ in range(4)]
            if any(v):
                return v
    big = r.choice([3, 10, 100])
    q1, q2 = q(), q()
    if r.random() < 0.1:
        q1, q2 = steep_q(r), r.choice(YAWS)
        if r.random() < 0.5:
            q1, q2 = q2, q1
    if r.random() < 0.06:
        q1, q2, big = climb_q(r), r.choice(YAWS[:6]), 3
    if r.random() < 0.05:     # all but no turn, or all but a half turn
        k, e = r.choice([-1, 1]) * r.choice([1000, 4000, 9000]), r.choice([-1, 1])
        q1 = [0, 0, 0, 0]
        i, j = r.sample(range(4), 2)
        q1[i], q1[j] = k, e
        q2 = [0, 0, 0, 0]
        q2[r.randrange(4)] = r.choice([-1, 1])
        big = 3
        if r.random() < 0.5:
            q1, q2 = q2, q1
    return {"k": "math", "wide": False, "u": r.choice([0, 0, -10, -3, 5, 12, 20]), "q1": q1, "q2": q2, "v": [r.randint(-big, big) for _ in range(3)],
            "w": [r.randint(-big, big) for _ in range(3)]}


def box_case(r):
    k = r.random()
    if k < 0.4:
        h, q = r.randrange(48), [1, 0, 0, 0]
    elif k < 0.55:
        h, q = -1, r.choice(YAWS)
    elif k < 0.7:
        h, q = -1, r.choice([steep_q, climb_q])(r)
    else:
        h, q = -1, [20000]
        while abs(q[0]) >= 10000:
            q = math_case(r)["q1"]
    span, size, flat = r.choice([0, 4, 50, 400]), [25, 50, 20], r.random() < 0.06
    if max(map(abs, q)) >= 400:
        span, size = min(span, 2), [5, 5, 5]
    p, pt = [r.randint(-span, span) for _ in range(3)], [r.randint(-100, 100) for _ in range(3)]
    k = r.random()
    if k < 0.05:
        pt = list(p)
    elif k < 0.15:          # in line with the origin, or at it
        p, pt = ([x * r.choice([0, 1]) for x in v] for v in (p, pt))
    elif k < 0.2:
        pt = [0, 0, 0]
    return {"k": "box", "u": unit(r), "o": obj(r.choice(LABELS), p, h, q, [r.choice([0, x]) if flat else x for x in (r.randint(1, x) for x in size)]),
            "pt": pt}


# ---------------------------------------------------------------- enumerated by TLC

def scores_from(pairs):
    """Gen_Score: pairs of boxes on a lattice."""
    out = []
    for n, x in enumerate(pairs):
        a, b = (obj("Car", x[k]["p"], -1, x[k]["q"], x[k]["s"]) for k in "ab")
        ax, bx = dict(a, l="Bus", c=1000, n=5, id="u", t=77, f="Map"), dict(b, c=0, id="w", v=[1, 2, 3])
        d2 = sum((i - j) ** 2 for i, j in zip(a["p"], b["p"]))
        root = int(d2 ** 0.5)
        thr = [["center", t] for t in {0, root, root + 1}] + [["plane", t] for t in {0, root, root + 1}]
        thr += [[m, t] for m in ("iou2d", "iou3d") for t in (0, 333, 500, 1000)]
        out.append({"k": "score", "u": -2, "a": a, "b": b, "ax": ax, "bx": bx, "thr": thr})
    return out


def maths_from(pairs):
    """Gen_Math: compositions of rotations."""
    return [{"k": "math", "wide": False, "u": 0, "q1": x["q1"], "q2": x["q2"], "v": [1, -2, 3], "w": [2, 1, -1]} for x in pairs]
