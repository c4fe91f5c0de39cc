"""P18: decoding BMP, Targa and Radiance HDR (spec/Decoders.tla)."""
import struct
import vf

META = dict(
    technique="TLA+ spec Decoders: what any sequence of bytes is in the three formats (picture, nothing, or left open by the format), checked by TLC against "
              "independent encoders and truncations; written, cut, corrupted and random files decoded by huira under sanitizers with bounded memory",
    note="Every single cut and many single and double corruptions of small drawn files; pictures of at most a few hundred pixels. "
         "What the formats leave open (a run past the end of a Targa image, zero-sized images) only must not crash.")


def u16(x):
    return list(struct.pack("<H", x & 0xffff))


def u32(x):
    return list(struct.pack("<I", x & 0xffffffff))


def channel(rng):
    return rng.choice([0, 255, 1, 128, rng.randint(0, 255), rng.randint(0, 255)])


def picture(rng, w, h, ch, few=False):
    pal = [[channel(rng) for _ in range(ch)] for _ in range(rng.randint(1, 4))]
    return [list(rng.choice(pal)) if few else [channel(rng) for _ in range(ch)] for _ in range(w * h)]


def bmp(rng):
    w, h, ch = rng.randint(1, 6), rng.randint(1, 5), rng.choice([3, 4])
    px = picture(rng, w, h, ch)
    masks = ch == 4 and rng.random() < .4
    down = rng.random() < .4
    dib = rng.choice([108, 124]) if masks else rng.choice([40, 40, 40, 108, 124])
    stride = (w * ch + 3) // 4 * 4
    gap = rng.choice([0, 0, 4, 7])
    rest = [0] * (dib - 40)
    if masks:
        rest[:16] = u32(0xff0000) + u32(0xff00) + u32(0xff) + u32(0xff000000)
    off = 14 + dib + gap
    rows = []
    for y in (range(h) if down else reversed(range(h))):
        row = []
        for x in range(w):
            p = px[y * w + x]
            row += [p[2], p[1], p[0]] + p[3:]
        rows += row + [rng.randint(0, 255) for _ in range(stride - len(row))]
    b = [66, 77] + u32(off + len(rows)) + u32(0) + u32(off) + u32(dib) + u32(w) + u32(-h if down else h) + u16(1) + u16(8 * ch) + u32(3 if masks else 0)
    b += u32(len(rows)) + u32(2835) + u32(2835) + u32(0) + u32(0) + rest + [rng.randint(0, 255) for _ in range(gap)] + rows
    fields = [(0, 1), (1, 1), (10, 4), (14, 4), (18, 4), (22, 4), (28, 2), (30, 4)]
    if masks:
        fields += [(54, 4), (58, 4), (62, 4)]
    return b, [w, h, ch == 4, px], fields, len(b), ()


def packets(rng, cells):
    out, i = [], 0
    while i < len(cells):
        run = 1
        while i + run < len(cells) and run < 128 and cells[i + run] == cells[i]:
            run += 1
        if rng.random() < (.7 if run > 1 else .2):
            k = rng.choice([run, rng.randint(1, run)])
            out += [127 + k] + cells[i]
        else:
            k = min(len(cells) - i, rng.choice([1, 2, 3, 9, 128]))
            out += [k - 1] + [v for c in cells[i:i + k] for v in c]
        i += k
    return out


def tga(rng):
    kind = rng.choice([1, 2, 3, 9, 10, 11, 9, 10, 11])
    w, h = rng.choice([(rng.randint(1, 6), rng.randint(1, 5))] * 3 + [(rng.randint(20, 70), rng.randint(2, 5))])
    top, right = rng.random() < .5, rng.random() < .3
    name = [rng.randint(0, 255) for _ in range(rng.choice([0, 0, 5, 18]))]
    packed = kind > 8
    cmap, spec, hasmap = [], [0, 0, 0, 0, 0], 0
    if kind in (1, 9):
        ch = rng.choice([3, 4])
        first, cnt, depth = rng.choice([0, 0, 3, 250]), rng.randint(1, 5), rng.choice([8, 8, 16])
        if depth == 16 and rng.random() < .3:
            first = rng.choice([300, 65530])
        pal = [[channel(rng) for _ in range(ch)] for _ in range(cnt)]
        hasmap, spec = 1, u16(first) + u16(cnt) + [8 * ch]
        cmap = [v for p in pal for v in [p[2], p[1], p[0]] + p[3:]]
        if first == 250 and depth == 8:
            cnt = min(cnt, 6)
        ix = [rng.randrange(cnt) for _ in range(w * h)]
        px = [pal[i] for i in ix]
        cells = [u16(first + i) if depth == 16 else [first + i] for i in ix]
    elif kind in (3, 11):
        ch, depth = 3, 8
        px = [[p[0]] * 3 for p in picture(rng, w, h, 1, packed)]
        cells = [[p[0]] for p in px]
    else:
        ch = rng.choice([3, 4])
        depth = 8 * ch
        px = picture(rng, w, h, ch, packed)
        cells = [[p[2], p[1], p[0]] + p[3:] for p in px]
    if kind not in (1, 9) and rng.random() < .2:
        hasmap, e, cnt = 1, rng.choice([15, 16, 24, 32]), rng.randint(0, 4)
        spec = u16(rng.choice([0, 2])) + u16(cnt) + [e]
        cmap = [rng.randint(0, 255) for _ in range(cnt * ((e + 7) // 8))]
    rows = [cells[y * w + (w - 1 - x if right else x)] for y in (range(h) if top else reversed(range(h))) for x in range(w)]
    data = packets(rng, rows) if packed else [v for c in rows for v in c]
    b = [len(name), hasmap, kind] + spec + u16(0) + u16(0) + u16(w) + u16(h) + [depth, (32 if top else 0) + (16 if right else 0) + (8 if ch == 4 else 0)] + name + cmap
    fields = [(0, 1), (1, 1), (2, 1), (3, 2), (5, 2), (7, 1), (12, 2), (14, 2), (16, 1), (17, 1)] + [(len(b) + i, 1) for i in range(min(len(data), 8))]
    n = len(b) + len(data)
    return b + data + ([] if rng.random() < .8 else [rng.randint(0, 255) for _ in range(3)]), [w, h, ch == 4, px], fields, n, ()


def plane(rng, v):
    out, i = [], 0
    while i < len(v):
        run = 1
        while i + run < len(v) and run < 127 and v[i + run] == v[i]:
            run += 1
        if rng.random() < (.7 if run > 1 else .2):
            k = rng.choice([run, rng.randint(1, run)])
            out += [128 + k, v[i]]
        else:
            k = min(len(v) - i, rng.choice([1, 2, 3, 9, 128]))
            out += [k] + v[i:i + k]
        i += k
    return out


def hdr(rng):
    w = rng.choice([rng.randint(1, 7), rng.randint(8, 12), rng.randint(8, 20), 300 if rng.random() < .2 else 9])
    h = rng.randint(1, 4)
    px = picture(rng, w, h, 4, rng.random() < .6)
    for p in px:
        p[3] = rng.choice([0, 128, 129, 120, 136, 140])
        if rng.random() < .1:
            p[:] = rng.choice([[2, 2, 0, w & 255], [2, 2, w & 255, 3], [1, 1, 2, 128], [1, 2, 1, 128]])
        if p[:3] == [1, 1, 1]:
            p[0] = 0
    if rng.random() < .3:
        for i in range(1, len(px)):
            if rng.random() < .85:
                px[i] = list(px[i - 1])
    up, left = rng.random() < .3, rng.random() < .3
    nl = rng.choice(["\n", "\n", "\r\n"])
    lines = [rng.choice(["#?RADIANCE", "#?RGBE"])] + [x for x in ["# made up", "EXPOSURE=1.0", "SOFTWARE=none FORMAT"] if rng.random() < .3]
    if rng.random() < .8:
        lines.append("FORMAT=32-bit_rle_rgbe")
    text = nl.join(lines) + nl + nl + f"{'+' if up else '-'}Y {h} {'-' if left else '+'}X {w}" + nl
    b = list(text.encode())
    n0 = len(b)
    ways = rng.choice(["flat", "flat", "rle", "rle", "mixed", "old"])
    rows = range(h - 1, -1, -1) if up else range(h)
    for y in rows:
        row = [px[y * w + (w - 1 - x if left else x)] for x in range(w)]
        way = rng.choice(["flat", "rle", "old"]) if ways == "mixed" else ways
        if w >= 8 and (way == "rle" or (row[0][:2] == [2, 2] and row[0][2] < 128)):
            b += [2, 2, w >> 8, w & 255]
            for k in range(4):
                b += plane(rng, [p[k] for p in row])
        elif way == "old":
            i = 0
            while i < w:
                b += row[i]
                run = 0
                while i + 1 + run < w and row[i + 1 + run] == row[i]:
                    run += 1
                k = run if run < 3 or rng.random() < .7 else rng.randint(1, run)
                if k and rng.random() < .8:
                    b += [1, 1, 1, k & 255]
                    if k > 255:
                        b += [1, 1, 1, k >> 8]
                    i += k
                i += 1
        else:
            b += [v for p in row for v in p]
    eol = text.rstrip("\r\n").rfind("\n") + 1
    fields = [(0, 1), (1, 1), (eol, 1), (eol + 3, 1), (eol + 2, 1)] + [(n0 + i, 1) for i in range(min(12, len(b) - n0))] + [(n0 - len(nl) - 1, 1)]
    return b, [w, h, False, px], fields, len(b), (n0,)


MAKE = dict(bmp=bmp, tga=tga, hdr=hdr)
ODD = [0, 1, 2, 3, 8, 11, 16, 24, 32, 40, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, 0x40000001, 0x3fffffff]


def command(rng, fmt, b, pic=(), short=False):
    via = rng.choice(["call", "call", "format", "file", "file" if rng.random() < .9 else "unknown"])
    if not b and via == "file":
        via = "call"
    ext = "raw" if via == "unknown" else rng.choice([fmt, fmt.upper()])
    return dict(op="read", fmt=fmt, b=b, via=via, ext=ext, mono=rng.random() < .25, alpha=rng.random() < .75, pic=list(pic) if via != "unknown" else [], short=short)


def draw(rng, m, cuts=False):
    w = []
    fmt = rng.choice(["bmp", "tga", "tga", "hdr", "hdr"])
    while len(w) < m:
        b, pic, fields, need, extra = MAKE[fmt](rng)
        if cuts:
            if len(b) > 220:
                continue
            for k in range(need):
                w.append(command(rng, fmt, b[:k], short=True))
            return w
        w.append(command(rng, fmt, b, pic))
        for _ in range(5):
            c = list(b)
            k = rng.random()
            if k < .25:
                n = rng.randrange(need)
                w.append(command(rng, fmt, c[:n], short=True))
                continue
            if k < .9:
                for _ in range(1 if rng.random() < .6 else 2):
                    at, size = rng.choice(fields)
                    v = rng.choice([rng.choice(ODD), rng.randint(0, 255), rng.randint(0, 40), sum(c[at + i] << 8 * i for i in range(size) if at + i < len(c)) + rng.choice([-1, 1, 256])])
                    if fmt == "hdr" and at < 90 and rng.random() < .7:
                        v = ord(rng.choice("+-#?0189 YX"))
                    for i in range(size):
                        if at + i < len(c):
                            c[at + i] = v >> 8 * i & 255
            else:
                for _ in range(rng.randint(1, 8)):
                    c[rng.randrange(len(c))] = rng.randint(0, 255)
            if rng.random() < .15:
                c = c[:rng.randrange(len(c) + 1)]
            w.append(command(rng, fmt, c))
    return w


# declared far larger than the file
HOSTILE = [
    ("tga", [0, 0, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 32, 8, 255, 1, 2, 3, 4]),
    ("tga", [0, 0, 11, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 8, 0, 127] + [7] * 130),
    ("tga", [0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 24, 0, 1, 2, 3]),
    ("hdr", list(b"#?RGBE\n\n-Y 999999999 +X 999999999\n") + [2, 2, 0, 9]),
    ("hdr", list(b"#?RGBE\n\n-Y 20000000 +X 8\n") + [2, 2, 0, 8] + [136, 1] * 4),
    ("hdr", list(b"#?RGBE\n\n-Y 1 +X 20000000\n") + [2, 2, 0, 9] * 3),
    ("hdr", list(b"#?RGBE\n\n-Y 2147483647 +X 2147483647\n")),
    ("hdr", list(b"#?RGBE\n\n-Y 99999999999 +X 99999999999\n") + [0] * 9),
    ("bmp", [66, 77] + u32(54) + u32(0) + u32(54) + u32(40) + u32(0x7fffffff) + u32(0x7fffffff) + u16(1) + u16(32) + u32(0) * 6 + [1] * 40),
    ("bmp", [66, 77] + u32(54) + u32(0) + u32(54) + u32(40) + u32(0x40000000) + u32(1) + u16(1) + u16(32) + u32(0) * 6 + [1] * 40),
    ("bmp", [66, 77] + u32(54) + u32(0) + u32(54) + u32(40) + u32(1) + u32(0x80000000) + u16(1) + u16(32) + u32(0) * 6 + [1] * 40),
    ("bmp", [66, 77] + u32(54) + u32(0) + u32(54) + u32(0xfffffff2) + u32(1) + u32(1) + u16(1) + u16(32) + u32(0) * 6 + [1] * 40),
    ("bmp", [66, 77] + u32(54) + u32(0) + u32(0xffffffff) + u32(40) + u32(1) + u32(1) + u16(1) + u16(32) + u32(0) * 6 + [1] * 40),
    ("bmp", [66, 77] + u32(54) + u32(0) + u32(54) + u32(40) + u32(0xffffffff) + u32(1) + u16(1) + u16(24) + u32(0) * 6 + [1] * 40),
]


def near(x, y):
    return y is not None and abs(x - y) <= 1e-5 * max(abs(x), abs(y), 1e-30)


def cmp(a, exp, got):
    e = exp["o"]
    if got["res"] == "memory":
        return "asked for more memory than the file can need"
    if e["res"] == "open":
        return None
    if e["res"] != got["res"]:
        return "a file that is not a picture was accepted" if e["res"] == "reject" else "a well-formed picture was refused"
    if e["res"] == "reject":
        return None
    if (got["w"], got["h"]) != (e["w"], e["h"]):
        return f"size is {got['w']} x {got['h']}, expected {e['w']} x {e['h']}"
    want = e["alpha"] and a["alpha"]
    if (got["aw"], got["ah"]) != ((e["w"], e["h"]) if want else (0, 0)):
        return f"alpha is {got['aw']} x {got['ah']}, " + ("expected with the picture" if want else "expected none")
    if got["linear"] != (a["fmt"] == "hdr"):
        return "the picture is marked as " + ("linear" if got["linear"] else "not linear")
    for i, p in enumerate(e["px"]):
        v = [p[k] * 2.0 ** (p[3] - 136) if p[3] else 0.0 for k in range(3)] if a["fmt"] == "hdr" else p[:3]
        if a["mono"]:
            if sum(v) > 3.4e38:
                continue
            v = [sum(v) / 3]
        if not all(near(x, y) for x, y in zip(v, got["px"][i])):
            return f"pixel ({i % e['w']}, {i // e['w']}) is {got['px'][i]}, expected {v}"
        if want and not near(p[3], got["a"][i]):
            return f"alpha of pixel ({i % e['w']}, {i // e['w']}) is {got['a'][i]}, expected {p[3]}"
    return None


def run(ctx):
    exe = vf.build(ctx, "decoders", libs="all", san=True, opt="-O1")
    n = 2000 if ctx.thorough else 360
    given = [draw(ctx.rng, 30) for _ in range(n)] + [draw(ctx.rng, 1, cuts=True) for _ in range(n // 6)]
    given.append([dict(op="read", fmt=f, b=b, via=v, ext=f, mono=False, alpha=True, pic=[], short=True) for f, b in HOSTILE for v in ("call", "file")])
    walks = vf.guided(ctx, "Decoders_G", "Decoders_G.cfg", given, jobs=8)
    kinds = {}
    for w in walks:
        for a, o in w:
            kinds[a["fmt"], o["res"]] = kinds.get((a["fmt"], o["res"]), 0) + 1
    ctx.log(", ".join(f"{k[0]} {k[1]}: {v}" for k, v in sorted(kinds.items())))
    env = dict(VF_DIR="", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=256")
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], env=env, what="files decoded", cmp=cmp)
