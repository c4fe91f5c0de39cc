"""P26: quantities with units (spec/UnitAlgebra.tla)."""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction as F

import vf

META = dict(
    technique="TLA+ spec UnitAlgebra gives every expression over quantities its dimension and its exact base value (formal fractions of "
              "conversion factors); TLC evaluates drawn expressions, a C++ program with the same expressions is generated, compiled "
              "against the headers and its answers compared",
    note="Expressions up to depth 4 over all units. Sums, differences and scalings of Celsius and Fahrenheit are not part of it "
         "(offset units: conversion, products, comparison only); products whose compile-time ratio does not fit 64 bits do not compile "
         "and are not drawn.")
PI = F(31415926535897932384626433832795028841971693993751, 10 ** 49)
TAGS = {"SiderealDay", "Degree", "Arcminute", "Arcsecond", "SquareDegree", "Celsius", "Fahrenheit", "ElectronVolt", "DegreesPerSecond"}
OFFSET = {"Celsius", "Fahrenheit"}
I64 = 2 ** 63 - 1


def mono(m):
    r = F(10) ** m["e"] * PI ** m["p"]
    for x in m["f"]:
        r *= x
    for x in m["g"]:
        r /= x
    return r


def fr(v):
    """(value, sum of absolute parts) or None if not defined well enough"""
    n, d = [mono(m) for m in v["n"]], [mono(m) for m in v["d"]]
    sn, sd, an, ad = sum(n), sum(d), sum(map(abs, n)), sum(map(abs, d))
    if sd == 0 or abs(sd) < ad / 10 ** 4:
        return None
    return sn / sd, an / abs(sd)


class Table:
    def __init__(self, t):
        self.units = t["units"]
        self.lits = t["literals"]
        for u in self.units.values():
            u["r"] = mono(u["ratio"])
            u["dim"] = tuple(u["dim"])
        self.bydim = {}
        for n, u in self.units.items():
            self.bydim.setdefault(u["dim"], []).append(n)

    def scale(self, u):
        return "tag:" + u if u in TAGS else self.units[u]["r"]


def fits(r):
    return abs(r.numerator) <= I64 and r.denominator <= I64


class Draw:
    """Expressions that have a dimension; self.type follows the compile-time scale."""

    def __init__(self, rng, tab):
        self.rng, self.t = rng, tab

    def leaf(self, dim=None, offset=True):
        rng = self.rng
        names = self.t.bydim[dim] if dim else list(self.t.units)
        names = [n for n in names if offset or n not in OFFSET]
        u = rng.choice(names)
        v = rng.choice([0, 1, -1, 2, 3, 5, rng.randint(-2000, 2000), rng.randint(1, 400), rng.randint(1, 10 ** 6)])
        return dict(k="q", u=u, v=v, w=rng.choice([1, 1, 2, 4, 8, 10, 1000])), self.t.units[u]["dim"], self.t.scale(u)

    def scalar(self):
        while True:
            s = self.rng.choice([1, 2, 4, 8, -4, -6, 3, self.rng.randint(-400, 400)])
            if s:
                return s

    def expr(self, depth, dim=None, offset=False):
        """offset: an offset unit may come out"""
        rng = self.rng
        if depth == 0 or rng.random() < .12:
            if dim is None or dim in self.t.bydim:
                return self.leaf(dim, offset)
        ops = ["as", "as_type", "into", "assign", "add", "add_eq", "sub", "sub_eq", "neg", "times", "by", "times_eq", "over", "over_eq"]
        if dim is None:
            ops += ["mul"] * 4 + ["div"] * 4 + ["under", "under"]
        elif dim not in self.t.bydim or depth == 0:
            return None
        k = rng.choice(ops)
        if k in ("as", "as_type", "into", "assign"):
            a = self.expr(depth - 1, dim, True)
            if not a or a[1] not in self.t.bydim:
                return None
            u = rng.choice([n for n in self.t.bydim[a[1]] if offset or n not in OFFSET])
            return dict(k=k, a=a[0], u=u), a[1], self.t.scale(u)
        if k in ("add", "add_eq", "sub", "sub_eq"):
            a = self.expr(depth - 1, dim)
            b = a and self.expr(depth - 1, a[1]) if a and a[1] in self.t.bydim else None
            return (dict(k=k, a=a[0], b=b[0]), a[1], a[2]) if b else None
        if k in ("mul", "div"):
            a, b = self.expr(depth - 1, None, True), self.expr(depth - 1, None, True)
            if not a or not b:
                return None
            d = tuple(x + y if k == "mul" else x - y for x, y in zip(a[1], b[1]))
            if isinstance(a[2], str) or isinstance(b[2], str):
                s = F(1)
            else:
                s = a[2] * b[2] if k == "mul" else a[2] / b[2]
                if not fits(s) or not fits(a[2]) or not fits(b[2]):
                    return None
            return dict(k=k, a=a[0], b=b[0]), d, s
        a = self.expr(depth - 1, dim)
        if not a or (k == "neg" and not any(a[1])):
            return None
        if k == "under":
            s = F(1) if isinstance(a[2], str) else 1 / a[2]
            if not fits(s):
                return None
            return dict(k=k, a=a[0], s=self.scalar()), tuple(-x for x in a[1]), s
        if k == "neg":
            return dict(k=k, a=a[0]), a[1], a[2]
        return dict(k=k, a=a[0], s=self.scalar()), a[1], a[2]

    def some(self, depth, dim=None, offset=True):
        while True:
            e = self.expr(depth, dim, offset)
            if e:
                return e


def cxx(x):
    k = x["k"]
    if k == "q":
        return f"{x['u']}({x['v']}.0 / {x['w']})" if x["w"] != 1 else f"{x['u']}({x['v']})"
    a = cxx(x["a"])
    if k == "as":
        return f"({a}).template as<{x['u']}::scale_type>()"
    if k == "as_type":
        return f"({a}).template as<{x['u']}>()"
    if k == "into":
        return f"{x['u']}({a})"
    if k == "assign":
        return f"[&] {{ {x['u']} t; t = {a}; return t; }}()"
    if k in ("add", "sub", "mul", "div"):
        return f"({a} {dict(add='+', sub='-', mul='*', div='/')[k]} {cxx(x['b'])})"
    if k in ("add_eq", "sub_eq"):
        return f"[&] {{ auto t = {a}; t {'+' if k[0] == 'a' else '-'}= {cxx(x['b'])}; return t; }}()"
    if k == "neg":
        return f"(-({a}))"
    s = x["s"]
    n = str(s // 4) if s % 4 == 0 else f"{s / 4}f" if s % 3 == 0 else f"{s / 4}"
    if k == "times":
        return f"({a} * ({n}))"
    if k == "by":
        return f"(({n}) * {a})"
    if k == "over":
        return f"({a} / ({n}))"
    if k == "under":
        return f"(({n}) / {a})"
    return f"[&] {{ auto t = {a}; t {'*' if k == 'times_eq' else '/'}= ({n}); return t; }}()"


NANS = {
    "make": "{u} q(nan_d); use(q);", "make_f": "{u} q(nan_f); use(q);", "times": "use({u}(3) * nan_d);", "by": "use(nan_d * {u}(3));",
    "over": "use({u}(0) / 0.0);", "times_eq": "auto q = {u}(3); q *= nan_f; use(q);", "over_eq": "auto q = {u}(3); q /= nan_d; use(q);",
    "minus": "use({u}(inf) - {u}(inf));", "plus": "use({u}(inf) + {u}(-inf));", "minus_eq": "auto q = {u}(inf); q -= {u}(inf); use(q);",
    "plus_eq": "auto q = {u}(inf); q += {u}(-inf); use(q);", "ratio": "use({u}(inf) / {u}(inf));", "ratio0": "use({u}(0) / {u}(0));",
    "product": "use({u}(inf) * Second(0));", "under": "use(0.0 / {u}(0));",
}


def statement(i, a):
    op = a["op"]
    if op == "value":
        c = f"e.template as<{a['unit']}>().value()" if a["unit"] else "0.0"
        return f"value({i}, [&] {{ return {cxx(a['x'])}; }}, [](const auto& e) {{ return {c}; }});"
    if op == "compare":
        return f"compare({i}, [&] {{ return {cxx(a['x'])}; }}, [&] {{ return {cxx(a['y'])}; }});"
    if op == "accept":
        body = {"add": "a + b", "sub": "a - b", "less": "a < b", "equal": "a == b", "assign": "a = b", "add_eq": "a += b",
                "convert": "A(b)", "number": "static_cast<double (*)(double)>(nullptr)(a)"}[a["kind"]]
        return (f"accept({i}, [](auto a, auto b) {{ using A = decltype(a); return requires {{ {body}; }}; }}, "
                f"[&] {{ return {cxx(a['x'])}; }}, [&] {{ return {cxx(a['y'])}; }});")
    if op == "nan":
        return f"nan({i}, [&] {{ {NANS[a['how']].format(u=a['u'])} }});"
    if op == "literal":
        n = f"{a['v']}" if a["w"] == 1 else repr(a["v"] / a["w"])
        return f"value({i}, [&] {{ return {n}{a['suffix']}; }}, [](const {a['unit']}& e) {{ return 0.0; }});"
    raise KeyError(op)


def program(path, steps):
    """steps: (number, act); 40 a function"""
    with open(path, "w") as f:
        f.write('#include "unit_algebra.hpp"\n')
        for k in range(0, len(steps), 40):
            f.write(f"static void part{k}() {{\n")
            for i, a in steps[k:k + 40]:
                f.write(f'#line {i + 1} "expressions"\n{statement(i, a)}\n')
            f.write("}\n")
        f.write("int main() {\n" + "".join(f"part{k}();\n" for k in range(0, len(steps), 40)) + "}\n")


def compile_(ctx, name, steps):
    src = os.path.join(ctx.dir, name + ".cpp")
    program(src, steps)
    cmd = ["g++", "-std=c++20", "-O0", "-w", "-fmax-errors=40", "-I", os.path.join(vf.REPO, "include"), "-I", os.path.join(vf.VERIF, "harness"),
           "-I", os.path.join(vf.VERIF, "harness", "stub"), src, "-o", src[:-4], "-pthread"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    p = subprocess.run([src[:-4]], capture_output=True, text=True, timeout=300)
    res = {}
    for line in p.stdout.splitlines():
        j = json.loads(line)
        res[j["i"]] = j
    if p.returncode or len(res) != len(steps):
        return None, f"exit {p.returncode}, {len(res)} of {len(steps)} answers\n" + p.stderr[-2000:]
    return res, None


def near(want, got, rel=1e-12):
    v, mag = want
    return abs(F(got) - v) <= F(rel) * mag if abs(got) != float("inf") else False


def judge(a, g):
    """None or what is wrong"""
    op, e = a["op"], a["res"]
    if op in ("accept", "nan"):
        return None if g["r"] == e else f"expected {e} got {g['r']}"
    if op == "compare":
        if "error" in g:
            x, y = fr(e["a"]), fr(e["b"])
            return None if x is None or y is None else f"error {g['error']}"
        x, y = fr(e["a"]), fr(e["b"])
        if x is None or y is None:
            return None
        d = x[0] - y[0]
        if a.get("exact"):
            assert d == 0
        elif abs(d) <= F(1, 10 ** 11) * (x[1] + y[1]):
            return None
        want = [d < 0, d <= 0, d == 0, d != 0, d >= 0, d > 0]
        return None if g["r"] == want else f"(<, <=, ==, !=, >=, >) expected {want} got {g['r']}"
    si = fr(e["si"])
    if "error" in g:
        return None if si is None else f"error {g['error']}"
    if g["dim"] != list(e["dim"]):
        return f"dimension expected {e['dim']} got {g['dim']}"
    if si is None:
        return None
    if not near(si, g["si"]):
        return f"base value expected {float(si[0])} got {g['si']}"
    if not abs(F(g["sif"]) - si[0]) <= F(1, 10 ** 6) * si[1] + F(1, 10 ** 37) and abs(si[0]) < 10 ** 38:
        return f"single-precision base value expected {float(si[0])} got {g['sif']}"
    if e.get("counted"):
        c = fr(e["counted"][0])
        if c is not None and not near(c, g["count"]):
            return f"counted in {a['unit']} expected {float(c[0])} got {g['count']}"
    if e.get("written", "?") != "?":
        num, _, unit = g["text"].partition(" ")
        if unit != e["written"] or not abs(F(num) - si[0]) <= F(1, 10 ** 6) + F(1, 10 ** 11) * si[1]:
            return f"written expected {float(si[0])} {e['written']} got {g['text']}"
    return None


def cases(ctx, tab):
    rng, d = ctx.rng, Draw(ctx.rng, tab)
    k = 6 if ctx.thorough else 1
    res = []
    names = list(tab.units)
    for u in names:        # every unit into every other of its dimension
        for w in tab.bydim[tab.units[u]["dim"]]:
            x = d.leaf()[0]
            x["u"] = u
            res.append(dict(op="value", x=dict(k=rng.choice(["as", "as_type", "into", "assign"]), a=x, u=w), unit=w))
            v = rng.choice(tab.bydim[tab.units[u]["dim"]])
            res.append(dict(op="value", x=dict(k="as_type", u=u, a=dict(k="into", a=dict(k="as", a=x, u=w), u=v)), unit=u))
            y = d.leaf()[0]
            y["u"] = w
            if rng.random() < .5:
                y.update(v=x["v"], w=x["w"])
            res.append(dict(op="compare", x=x, y=y))
    for u in names:
        x = d.leaf()[0]
        x["u"] = u
        res.append(dict(op="compare", x=x, y=dict(x)))
        for _ in range(2):
            res.append(dict(op="nan", u=u, how=rng.choice(sorted(NANS))))
    whole = [n for n in names if tab.units[n]["r"].denominator == 1 and n not in OFFSET]
    for u in whole:        # equal amounts in different units
        for w in whole:
            q = tab.units[u]["r"] / tab.units[w]["r"]
            if tab.units[u]["dim"] == tab.units[w]["dim"] and q.denominator == 1 and q < 2000:
                v = rng.randint(1, 99)
                pair = [dict(k="q", u=u, v=v, w=1), dict(k="q", u=w, v=v * int(q), w=1)]
                rng.shuffle(pair)
                res.append(dict(op="compare", x=pair[0], y=pair[1]))
    for i in range(1, len(tab.lits) + 1):
        res.append(dict(op="literal", i=i, v=rng.randint(0, 10 ** 6), w=1))
        res.append(dict(op="literal", i=i, v=rng.randint(0, 10 ** 6), w=rng.choice([2, 10, 1000])))
    for _ in range(1700 * k):
        x, dim, _ = d.some(rng.choice([1, 2, 2, 3, 3, 4]))
        us = tab.bydim.get(dim)
        res.append(dict(op="value", x=x, unit=rng.choice(us) if us else ""))
    for _ in range(300 * k):
        x, dim, _ = d.some(rng.choice([1, 2, 3]), None, True)
        if dim in tab.bydim:
            res.append(dict(op="compare", x=x, y=d.some(rng.choice([0, 1, 2]), dim)[0]))
        y = d.some(1, dim if dim in tab.bydim and rng.random() < .4 else None, True)[0]
        res.append(dict(op="accept", x=x, y=y, kind=rng.choice(["add", "sub", "less", "equal", "assign", "add_eq", "convert", "number"])))
    return res


def tie(tab, a):
    """Equal whole amounts of units that are whole multiples of the base unit, or the same thing twice."""
    x, y = a["x"], a["y"]
    if x["k"] != "q" or y["k"] != "q":
        return False
    u, w = tab.units[x["u"]]["r"], tab.units[y["u"]]["r"]
    return x == y or (u.denominator == w.denominator == x["w"] == y["w"] == 1 and fr(a["res"]["a"])[0] == fr(a["res"]["b"])[0]
                      and not {x["u"], y["u"]} & OFFSET)


def run(ctx):
    tab = Table(vf.guided(ctx, "UnitAlgebra_G", "UnitAlgebra_G.cfg", [[dict(op="table")]])[0][0][0]["res"])
    cmds = cases(ctx, tab)
    steps = [a for w in vf.guided(ctx, "UnitAlgebra_G", "UnitAlgebra_G.cfg", [[c] for c in cmds]) for a, _ in w]
    for a in steps:
        if a["op"] == "compare" and tie(tab, a):
            a["exact"] = True
    ctx.rng.shuffle(steps)
    n = 16 if not ctx.thorough else 60
    jobs = [list(enumerate(steps))[i::n] for i in range(n)]
    t = time.time()
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(lambda j: compile_(ctx, f"units{j}", jobs[j]), range(n)))
    ctx.log(f"{len(steps)} expressions in {n} programs compiled and run in {time.time() - t:.0f}s")
    bad = []
    for j, (res, err) in zip(jobs, done):
        if res is None:
            r = refused(ctx, j, err)
            if r is None:
                raise vf.CheckError("the generated program cannot be built or run:\n" + err[-2500:])
            bad.append(r)
            continue
        for i, a in j:
            w = judge(a, res[i])
            if w:
                bad.append((a, w))
    if bad:
        a, w = min(bad, key=lambda b: len(json.dumps(b[0])))
        c = statement(0, a)
        raise vf.Violation(f"{c}\n{w}   ({len(bad)} of {len(steps)} expressions)",
                           dict(kind="expression", step=a, cpp=c, why=w, others=[statement(0, b[0]) for b in bad[1:20]]))
    ctx.cov["traces_validated_against_impl"] += len(steps)
    ctx.cov["samples"] = [dict(what=a["op"], steps=[statement(0, a)], end=vf.short(a["res"])) for a in steps[:6]]
    ctx.log(f"{len(steps)} expressions conform")


def refused(ctx, job, err):
    """An expression with a dimension that the compiler refuses, although plain quantities are fine."""
    lines = [int(m) for m in re.findall(r"expressions:(\d+)", err)]
    probe, perr = compile_(ctx, "probe", [(0, dict(op="value", x=dict(k="q", u="Meter", v=3, w=2), unit=""))])
    if probe is None:
        raise vf.CheckError("the units cannot be used as published:\n" + perr[-2500:])
    acts = dict(job)
    for i in sorted(set(lines)):
        if i - 1 in acts:
            one, e1 = compile_(ctx, "one", [(0, acts[i - 1])])
            if one is None:
                why = "\n".join(l for l in e1.splitlines() if "error" in l)[:600]
                return acts[i - 1], f"is refused by the compiler or ends the program: {why or e1[-500:]}"
    return None
