"""Histories of the process-wide log (see spec/Logging)."""
import os, random
from . import gen_config as gc


def text(r):
    """What a message says: nothing of it may be lost."""
    k = r.random()
    if k < 0.5:
        return ""
    if k < 0.7:
        return r.choice(["{}", "{m}", "{l} - {m}", "100%", "%s %d", "a\tb", "\\n", "\u00e9\u4e2d\u6587", "error", "debug: x", '"quoted"', "a  b", "<>"])
    return "".join(r.choice("abc def{}%") for _ in range(r.choice([20, 39, 79, 80, 81, 120, 127, 128, 255, 256, 1023, 1024, 1025, 5000])))


def logging_case(r):
    names = ["a", "b b", "c/d", "e"][:r.randint(1, 4)]
    usable = {n: r.random() < 0.85 for n in names}
    ops, m = [], r.randrange(1000)
    for _ in range(r.choice([2, 5, 10, 20])):
        k = r.random()
        d = r.choice(names)
        if k < 0.2:
            ops.append({"op": "conf", "dir": d, "lv": r.choice(["Error", "Warn", "Info", "Debug", "Trace"]), "usable": usable[d]})
        elif k < 0.35:
            ops.append({"op": "scenario", "dir": d, "usable": usable[d]})
        else:
            m += 1
            ops.append({"op": "emit", "lv": r.choice(["Error", "Warn", "Info", "Debug", "Trace"]), "m": m, "text": text(r)})
    return {"k": "logging", "dirs": names, "ops": ops, "blocked": [n for n in names if not usable[n]]}


def prepare(ctx, c):
    root = ctx.path("log")
    os.makedirs(root)
    for n in c["blocked"]:           # a file where the directory should be
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
    f = {"fault": "", "task": "detection", "frame": "base_link", "labels": ["car"], "den": 4, "mx": 400, "my": 400, "mp": -1, "absent": "absent",
         "uuids": {"on": False, "ids": []}, "tc": 4, "tp": 8, "t2": 500, "t3": 500, "sets": [{"path": "d", "version": "v"}]}
    path = os.path.join(root, "s.yaml")
    open(path, "w").write(gc.yaml(random.Random(1), f))
    return {"k": "logging", "id": c["id"], "root": root, "scenario": path, "dirs": c["dirs"], "ops": c["ops"]}


def from_tlc(lists):
    """Gen_Logging: histories enumerated by TLC, each followed by messages."""
    out = []
    for x in lists:
        ops = []
        for k, (op, d, lv) in enumerate(list(x["ops"]) + [["emit", "", "Error"], ["emit", "", "Info"], ["emit", "", "Debug"], ["emit", "", "Trace"]]):
            if op == "emit":
                ops.append({"op": op, "lv": lv, "m": k + 1, "text": ""})
            elif op == "conf":
                ops.append({"op": op, "dir": d, "lv": lv, "usable": d != "x"})
            else:
                ops.append({"op": op, "dir": d, "usable": d != "x"})
        out.append({"k": "logging", "dirs": ["a", "b", "x"], "ops": ops, "blocked": ["x"]})
    return out
