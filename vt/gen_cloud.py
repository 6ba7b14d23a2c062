"""Lidar files of a dataset (see spec/PointCloud)."""
import struct, zlib
from . import gen_data as gd


def value(r):
    k = r.random()
    x = 0.0 if k < 0.1 else r.randint(-40, 40) / 4 if k < 0.5 else r.randint(-8000000, 8000000) / 4 if k < 0.9 else r.choice([-1, 1]) * 2.0 ** r.randint(-2, 20)
    return list(struct.pack("<f", x))


def odd_value(r):
    """Any 32 bits: infinities, quiet and signalling NaNs, subnormals, huge and tiny numbers."""
    k = r.random()
    if k < 0.3:
        return [r.randrange(256) for _ in range(4)]
    bits = r.choice([0x7F800000, 0xFF800000, 0x7FC00000, 0x7F800001, 0xFFC12345, 0x80000000, 1, 0x807FFFFF, 0x7F7FFFFF, 0x00800000, 0, 0x3F800000, 0x3DCCCCCD])
    return list(struct.pack("<I", bits))


def blob(r, odd=False):
    if odd:
        n = r.choice([1, 1, 2, 3, 6])
        if r.random() < 0.3:        # the same odd number throughout
            return odd_value(r) * 5 * n
        b = [x for _ in range(5 * n) for x in (odd_value(r) if r.random() < 0.4 else value(r))]
        return b[:len(b) - r.choice([0, 0, 0, 4, 1])]
    n = r.choice([1, 1, 2, 3, 5, 8]) if r.random() < 0.97 else r.choice([410, 420])
    b = [x for _ in range(5 * n) for x in value(r)]
    k = r.random()
    if k < 0.3:
        b = b[:r.randint(1, len(b))]
    elif k < 0.4:
        b = b + [r.randrange(256) for _ in range(r.randint(1, 19))]
    elif k < 0.6:
        b = b[:len(b) - r.choice([4, 8, 12, 16])]
    return b


def png(w, h, ch, px, r, depth=8, palette=()):
    """The picture as a PNG file, and where its pixels begin in it."""
    chunk = lambda t, d: struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    n = 1 if palette else ch
    row = lambda v: bytes(v) if depth == 8 else b"".join(struct.pack(">H", x) for x in v)
    rows = b"".join(b"\0" + row(px[w * n * y:w * n * (y + 1)]) for y in range(h))
    z = zlib.compress(rows, r.choice([0, 9]))
    parts = [z] if r.random() < 0.7 else [z[:len(z) // 2], z[len(z) // 2:]]
    head = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, 3 if palette else {1: 0, 2: 4, 3: 2, 4: 6}[ch], 0, 0, 0))
    if palette:
        head += chunk(b"PLTE", bytes(palette))
    return list(head + b"".join(chunk(b"IDAT", p) for p in parts) + chunk(b"IEND", b"")), len(head)


def jpeg(bw, bh, grays):
    """A grey JPEG file of constant 8 by 8 blocks (decoded exactly)."""
    seg = lambda m, d: bytes([255, m]) + struct.pack(">H", len(d) + 2) + d
    head = b"\xff\xd8" + seg(0xDB, b"\0" + b"\x08" * 64)
    head += seg(0xC0, struct.pack(">BHHBBBB", 8, 8 * bh, 8 * bw, 1, 1, 0x11, 0))
    # direct-current classes 0..8 as codes of four bits, and end-of-block as code 0
    head += seg(0xC4, b"\0" + bytes([0, 0, 0, 9] + [0] * 12) + bytes(range(9)))
    head += seg(0xC4, b"\x10" + bytes([1] + [0] * 15) + b"\0")
    head += seg(0xDA, b"\x01\x01\0\0\x3f\0")
    bits, last = "", 0
    for g in grays:
        d, last = g - 128 - last, g - 128
        n = abs(d).bit_length()
        bits += format(n, "04b") + (format(d if d > 0 else d + (1 << n) - 1, "0%db" % n) if n else "") + "0"
    bits += "1" * (-len(bits) % 8)
    data = b"".join(b"\xff\0" if bits[k:k + 8] == "1" * 8 else bytes([int(bits[k:k + 8], 2)]) for k in range(0, len(bits), 8))
    return list(head + data + b"\xff\xd9"), len(head)


def image(r):
    """A picture file with what it shows, or a damaged one."""
    if r.random() < 0.7:
        w, h, ch = r.randint(1, 9), r.randint(1, 9), r.choice([1, 2, 3, 3, 4])
        depth = 16 if r.random() < 0.25 else 8
        px = [r.randrange(1 << depth) for _ in range(w * h * ch)] if r.random() < 0.8 else [r.randrange(1 << depth)] * (w * h * ch)
        if r.random() < 0.15:      # a picture of few colours
            depth, ch, few = 8, 3, [[r.randrange(256) for _ in range(3)] for _ in range(r.choice([1, 3, 200]))]
            of = [r.randrange(len(few)) for _ in range(w * h)]
            px = [v for k in of for v in few[k]]
            b, start = png(w, h, ch, of, r, 8, sum(few, []))
        else:
            b, start = png(w, h, ch, px, r, depth)
        fmt = "png"
    else:
        bw, bh, ch = r.randint(1, 3), r.randint(1, 3), 1
        grays = [r.choice([0, 1, 127, 128, 254, 255, r.randrange(1, 255)]) for _ in range(bw * bh)]
        grays = [max(1, min(255, g)) for g in grays]
        w, h, depth = 8 * bw, 8 * bh, 8
        px = [grays[y // 8 * bw + x // 8] for y in range(h) for x in range(w)]
        b, start = jpeg(bw, bh, grays)
        fmt = r.choice(["jpg", "jpeg"])
    if r.random() < 0.2:
        bad = r.choice(["cut", "cut", "empty", "noise", "text"])
        b = b[:r.randint(1, start)] if bad == "cut" else [] if bad == "empty" else list(b"not a picture") if bad == "text" else [r.randrange(256) for _ in range(60)]
        return {"bytes": b, "img": [], "fmt": fmt}
    return {"bytes": b, "img": [w, h, ch, depth] + px, "fmt": fmt}


def build(r, blobs):
    """A dataset whose recordings have the given files (None: no file; an image: with its format)."""
    T = {t: [] for t in gd.CODES}
    T["log"] = [{"t": 1}]
    T["sensor"] = [{"t": 2, "mod": "lidar"}]
    T["cs"] = [{"t": 3, "sensor": 2, "q": [1, 0, 0, 0], "tr": [0, 0, 0]}]
    T["scene"] = [{"t": 4, "log": 1, "n": 1, "first": 5, "last": 5}]
    T["sample"] = [{"t": 5, "ts": 0, "scene": 4, "prev": 0, "next": 0}]
    T["ego"] = [{"t": 6, "ts": 0, "q": [1, 0, 0, 0], "p": [0, 0, 0]}]
    data, sds = [], []
    for k, b in enumerate(blobs):
        fmt = r.choice(["pcd", "bin"])
        if isinstance(b, dict):
            fmt = b["fmt"]
            path = r.choice(["camera/%d.%s", "lidar/%d.%s", "samples/CAM_FRONT/%d.%s", "%d.%s"]) % (k, r.choice([fmt, fmt, fmt.upper()]))
            data.append({"path": path, "bytes": b["bytes"], "img": b["img"]})
        else:
            path = r.choice(["lidar/%d.bin", "lidar/%d.pcd.bin", "samples/lidar/%d", "a/b/lidar/%d.pcd", "v1/../lidar/%d.bin"]) % k
            if b is not None:
                data.append({"path": path, "bytes": b})
        sds.append({"t": 10 + k, "sample": 5, "ego": 6, "cs": 3, "ts": k, "key": True, "prev": 0, "next": 0, "fmt": fmt, "file": path})
    r.shuffle(sds)
    T["sd"] = sds
    return {"k": "cloud", "tables": T, "files": {t: "ok" for t in gd.CODES}, "blobs": data, "deep": False, "base": 1000, "salt": 1, "frame": "BaseLink"}


def cloud_case(r):
    n = r.randint(1, 6)
    odd = r.random() < 0.25
    c = build(r, [None if r.random() < 0.15 else image(r) if r.random() < 0.25 else blob(r, odd) for _ in range(n)])
    if r.random() < 0.3 and n > 1:   # two recordings with the same file
        a, b = r.sample(c["tables"]["sd"], 2)
        a["file"], a["fmt"] = b["file"], b["fmt"]
    c["odd"] = odd
    if r.random() < 0.3:             # other bytes were at the same place before
        b = dict(c, blobs=[dict(x, bytes=image(r)["bytes"] if "img" in x else blob(r)) for x in c["blobs"]])
        c["before"] = [b]
    return c


LONG = 12000


def long_case(r):
    """Files of up to several megabytes: 600 points over and over, and a part of them."""
    blobs = []
    for _ in range(2):
        b = bytes(x for _ in range(LONG // 4) for x in value(r))
        n = r.choice([2 << 20, 4 << 20, 5000000, 8 << 20, 1 << 20, 131072, 65536]) + r.choice([0, 20, -20, 4, 40])
        n = n - n % 20 if r.random() < 0.8 else n
        blobs.append((b, n))
    c = build(r, [None] * len(blobs))
    paths = [x["file"] for x in sorted(c["tables"]["sd"], key=lambda x: x["t"])]
    c["blobs"] = [{"path": p, "bytes": list(b), "len": n} for p, (b, n) in zip(paths, blobs)]
    return c


def from_tlc(items):
    import random
    r = random.Random(3)
    bs = sorted((x["bytes"] for x in items), key=len)
    return [build(r, bs[k:k + 10]) for k in range(0, len(bs), 10)]


def prepare(ctx, c):
    whole = lambda b: (b["bytes"] * (b["len"] // len(b["bytes"]) + 1))[:b["len"]] if "len" in b else b["bytes"]
    full = lambda c: dict(c, data={b["path"]: whole(b) for b in c["blobs"]}, before=[full(b) for b in c.get("before", [])])
    return gd.prepare(ctx, full(c))


def slim(c):
    return {"blobs": c["blobs"], "odd": c.get("odd", False), "sds": [{"t": x["t"], "file": x["file"], "pic": x["fmt"] not in ("pcd", "bin")} for x in c["tables"]["sd"]]}
