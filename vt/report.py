"""Reads what a score request printed: the report (Display) and, with all digits, the Debug text."""
import re

UNIT = 10_000_000
MODES = {"CenterDistance": "center", "PlaneDistance": "plane"}


def unit(text):
    try:
        x = float(text)
    except ValueError:
        return 2_000_000_001
    if x != x:
        return -1
    if abs(x) > 100:
        return 2_000_000_000
    v = int(round(x * UNIT))
    return v if v >= 0 else v - 1  # -1 is NaN


def sections(text):
    out = []
    for m in re.finditer(r"\[(\w+)\]\s*\n(.*?)(?=\n\s*\[\w+\]\s*\n|\Z)", text, re.S):
        body = m.group(2)
        sec = {"mode": MODES.get(m.group(1), m.group(1)), "labels": [], "thr": [], "ap": [], "aph": [],
               "map": 2_000_000_001, "maph": 2_000_000_001, "dec3": True}
        for k, v in re.findall(r"\b(mAPH|mAP)\s*:\s*(\S+)", body):
            sec[k.lower()] = unit(v)
            sec["dec3"] = sec["dec3"] and re.fullmatch(r"-?\d+\.\d{3}|NaN", v) is not None
        for line in body.splitlines():
            cells = [c.strip() for c in line.strip().strip("|").split("|")]
            if cells and cells[0].lower() == "label":
                for c in cells[1:]:
                    x = re.fullmatch(r"(\w+)\s*\(\s*(-?[\d.]+|inf)\s*\)", c)
                    if x:
                        sec["labels"].append(x.group(1))
                        sec["thr"].append(min(int(round(min(float(x.group(2)), 1e6) * 1000)), 1_000_000_000))
                    elif c:
                        sec["labels"].append("?" + c)
            elif cells and cells[0] in ("AP", "APH"):
                vals = [c for c in cells[1:] if c]
                sec[cells[0].lower()] += [unit(c) for c in vals]
                sec["dec3"] = sec["dec3"] and all(re.fullmatch(r"-?\d+\.\d{3}|NaN", c) for c in vals)
        out.append(sec)
    return out


def fine(debug):
    out = []
    for m in re.finditer(r"matching_mode:\s*(\w+),(.*?)scores:\s*\{(.*?)\}", debug, re.S):
        e = {"mode": MODES.get(m.group(1), m.group(1))}
        for k, v in re.findall(r'"(APH?)":\s*\[(.*?)\]', m.group(3), re.S):
            e[k.lower()] = [unit(x.strip()) for x in v.split(",") if x.strip()]
        if "ap" in e and "aph" in e:
            out.append(e)
    return out


def parsed(step):
    """The fields of a query step that the specification reads."""
    s = {"op": "query", "st": step["st"], "len": step["len"], "same": step["same"]}
    if step["st"] == "ok":
        s["sections"] = sections(step["text"])
        f = fine(step["debug"])
        if len(f) == 2 and {x["mode"] for x in f} == {"center", "plane"}:
            s["fine"], s["eps"] = f, 1
        else:
            s["fine"] = [{k: x[k] for k in ("mode", "ap", "aph")} for x in s["sections"]]
            s["eps"] = 5001
    return s
