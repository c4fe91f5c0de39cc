"""P22: times and intervals (spec/Instants.tla)."""
import datetime
import re

import vf

META = dict(
    technique="TLA+ spec Instants defines the time scales (leap seconds, the calendar, the TDB wave), offsets, differences and intervals on exact "
              "moments; TLC evaluates drawn histories of registers and checks that the scales invert and arithmetic is sound; every instant made "
              "by one route is compared with Time seen through every other, and Interval with the specification's ends and samples",
    note="Dates 1900-2100, kept 10 s away from leap seconds. CSPICE is replaced by a stand-in with the same conversions, so what is checked is "
         "huira's use of them. Agreement to 0.1 ms through Julian dates (their resolution is 0.04 ms), to 1 us for offsets and samples.")
SCALES = ["UTC", "TAI", "TT", "TDB"]
DAY = 86400000
LEAPS = [(1972, 1), (1980, 1), (1990, 1), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
NOTDATES = ["", "yesterday", "2024-13-01", "2024-00-10", "2024-01-01T25:00:00", "2024-01-01T00:61:00", "2024-01-01T00:00:00x", "T12:00:00", "12", "--"]


def ms_of(m):
    return m["d"] * DAY + m["ms"] + m["us"] / 1000


def amount(rng):
    u = rng.choice(["ms", "ms", "s", "s", "min", "h", "d"])
    top = dict(ms=2000000000, s=2000000, min=30000, h=500, d=5000)[u]
    return rng.choice([0, 1, -1, 2, 3, rng.randint(-top, top), rng.randint(-1000, 1000) if top >= 1000 else 5]), u


def draw(rng, m):
    w = []
    R = lambda: rng.randint(1, 4)

    def moment():
        if rng.random() < .2:   # within minutes of a leap second
            day = (datetime.date(*rng.choice(LEAPS), 1) - datetime.date(2000, 1, 1)).days
            return day - 1, DAY // 2 + rng.choice([-1, 1]) * rng.randint(11000, 120000)
        d = rng.choice([rng.randint(-36000, 36000), rng.randint(-200, 9000), rng.choice([0, 1, -1, 58, 59, 60, 8766, 8824, 8825])])
        return d, rng.choice([0, rng.randrange(DAY), rng.randrange(DAY), 43200000, DAY - 1, 43199999])
    for _ in range(m):
        k = rng.random()
        if k < .1:
            if rng.random() < .3:
                day = datetime.date(*rng.choice(LEAPS), 1)
                ms = rng.randint(11000, 120000)
                if rng.random() < .5:
                    day, ms = day - datetime.timedelta(days=1), DAY - ms
                w.append(dict(op="text", r=R(), form=rng.choice(["cal", "doy"]), y=day.year, m=day.month, d=day.day, doy=day.timetuple().tm_yday, ms=ms))
                continue
            day = datetime.date(2000, 1, 1) + datetime.timedelta(days=rng.choice([rng.randint(-36000, 36000), rng.randint(-11000, 9500), 59, 60, 365, 366, -1]))
            w.append(dict(op="text", r=R(), form=rng.choice(["cal", "doy"]), y=day.year, m=day.month, d=day.day, doy=day.timetuple().tm_yday,
                          ms=rng.choice([0, rng.randrange(120000, DAY - 120000), rng.randrange(120000, DAY - 120000), 43200000])))
        elif k < .3:
            d, ms = moment()
            w.append(dict(op=rng.choice(["jd", "mjd"]), r=R(), scale=rng.choice(SCALES), d=d, ms=ms))
        elif k < .35:
            d, ms = moment()
            w.append(dict(op="et", r=R(), d=d, ms=ms, long=rng.random() < .5))
        elif k < .45:
            n, u = amount(rng)
            w.append(dict(op="plus", q=R(), r=R(), n=n, u=u, res=0))
        elif k < .48:
            w.append(dict(op="copy", q=R(), r=R()))
        elif k < .5:
            w.append(dict(op="bad", r=R(), text=rng.choice(NOTDATES), res=0))
        elif k < .7:
            w.append(dict(op="see", r=R(), res=0))
        elif k < .8:
            w.append(dict(op="compare", a=R(), b=R(), res=0))
        elif k < .9:
            n, u = amount(rng)
            w.append(dict(op="interval", how=rng.choice(["start", "centre", "centre", "bounds"]), a=R(), b=R(), n=n, u=u, res=0))
        else:
            w.append(dict(op="samples", k=rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 64, 101, 1000]), res=0))
    return w


def keep(w):
    """Within the years the specification's numbers reach."""
    reg = {r: 0 for r in range(1, 5)}
    out = []
    for c in w:
        if c["op"] in ("jd", "mjd", "et"):
            reg[c["r"]] = c["d"]
        elif c["op"] == "text":
            reg[c["r"]] = (datetime.date(c["y"], c["m"], c["d"]) - datetime.date(2000, 1, 1)).days
        elif c["op"] == "plus":
            days = c["n"] * dict(ms=1 / DAY, s=1 / 86400, min=1 / 1440, h=1 / 24, d=1)[c["u"]]
            if abs(reg[c["r"]] + days) > 36500:
                continue
            reg[c["q"]] = reg[c["r"]] + days
        elif c["op"] == "copy":
            reg[c["q"]] = reg[c["r"]]
        elif c["op"] == "interval" and c["how"] != "bounds" and abs(reg[c["a"]]) > 31000:
            continue
        out.append(c)
    return out


def written(t, rx):
    m = re.fullmatch(rx, t)
    if not m:
        return None
    g = m.groupdict()
    try:
        day = datetime.date(int(g["y"]), int(g["m"]), int(g["d"]))
    except ValueError:
        return None
    h, mi, s = int(g["h"]), int(g["mi"]), int(g["s"])
    if h > 23 or mi > 59 or s > 60:
        return None
    return (day - datetime.date(2000, 1, 1)).days * DAY - DAY // 2 + h * 3600000 + mi * 60000 + s * 1000 + int(g["ms"])


CLOCK = r"(?P<h>\d\d):(?P<mi>\d\d):(?P<s>\d\d)\.(?P<ms>\d{3})"
DATE = r"(?P<y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d)"
FORMS = dict(iso=DATE + "T" + CLOCK + "Z", text=DATE + " " + CLOCK + " UTC", own=r"(?P<d>\d\d)/(?P<m>\d\d)/(?P<y>\d{4}) " + CLOCK, own2=DATE + " " + CLOCK)


def cmp(a, exp, got):
    op, e, g = a["op"], exp.get("r"), got.get("r")
    bad = f"expected {e} got {g}"
    if e == "error" or g == "error":
        return None if e == g else bad
    if op == "plus":
        return None if abs(ms_of(e) - g) <= .001 else bad
    if op == "see":
        for s in SCALES:
            if s == "UTC" and e["near"]:
                continue
            for how, y in zip(("Julian date", "modified Julian date", "Julian years"), g["at"][s]):
                if not abs(ms_of(e["at"][s]) - y) <= .12:
                    return f"{how} in {s}: expected {ms_of(e['at'][s])} ms since J2000, got {y}"
        if not abs(ms_of(e["at"]["TDB"]) - g["et"]) <= .08 or g["et"] != g["et2"] or not g["defaults"]:
            return f"ephemeris time {g['et']} ms, {g['et2']}, defaults {g['defaults']}; expected {ms_of(e['at']['TDB'])}"
        if not e["near"]:
            for k, rx in FORMS.items():
                v = written(g[k], rx)
                if v is None or not abs(v - ms_of(e["at"]["UTC"])) <= 1.1:
                    return f"written as {g[k]} ({k}), expected {ms_of(e['at']['UTC'])} ms since J2000"
            if isinstance(g["back"], str) or abs(g["back"]) > .6:
                return f"{g['iso']} reads back {g['back']} ms off"
        return None
    if op == "compare":
        d, x = ms_of(e), g["diff"]
        if not abs(d - x) <= .16:
            return bad
        if a["a"] == a["b"] and x != 0:
            return bad
        # the six comparisons agree with each other and with the difference
        want = dict(lt=x < 0, le=x <= 0, gt=x > 0, ge=x >= 0, eq=x == 0, ne=x != 0)
        if abs(d) >= .5:
            want = dict(lt=d < 0, le=d < 0, gt=d > 0, ge=d > 0, eq=False, ne=True)
        return None if all(g[k] == v for k, v in want.items()) else f"{bad}, comparisons should be {want}"
    if op == "interval":
        for k in ("start", "end", "mid"):
            if not abs(ms_of(e[k]) - g[k]) <= .09:
                return f"{k}: {bad}"
        return None if abs(ms_of(e["long"]) - g["long"]) <= (.002 if e["exact"] else .16) else f"duration: {bad}"
    if op == "samples":
        if len(e["at"]) != len(g["at"]) or not abs(ms_of(e["long"]) - g["long"]) <= .16:
            return f"{len(g['at'])} samples over {g['long']} ms, expected {len(e['at'])} over {ms_of(e['long'])}"
        for (i, k), y in zip(e["at"], g["at"]):
            if not abs(i * g["long"] / k - y) <= .002:
                return f"sample {i}/{k} of {g['long']} ms lies at {y}"
        return None
    return None


def run(ctx):
    exe = vf.build(ctx, "instants", libs="core", san=True, opt="-O1")
    walks = [keep(draw(ctx.rng, 60)) for _ in range(6000 if ctx.thorough else 500)]
    walks = vf.guided(ctx, "Instants_G", "Instants_G.cfg", walks, jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="times and intervals", cmp=cmp)
