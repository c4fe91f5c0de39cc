"""Shared by P04 and P05: replaying NodeState behaviours (spec/NodeState.tla)."""
import math

import vf

Q = math.pi / 2
FAR = [[0, 0], [0, 1], [2, 5], [1, -2]]


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def near(w, x, tol=1e-9, mag=None):
    w, x = flat(w), flat(x)
    if len(w) != len(x):
        return False
    for a, b in zip(w, x):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return False
        elif not abs(a - b) <= tol * (mag or max(1.0, max(abs(y) for y in w))):
            return False
    return True


def world(q):
    return dict(p=q["p"], v=[a + Q * b for a, b in zip(q["va"], q["vb"])], m=q["m"], w=[Q * k for k in q["k"]], s=q["s"])


def cmp(a, e, g):
    if e["r"] != g["r"]:
        return f"expected {e['r']!r} got {g['r']!r}"
    if len(e["o"]) != len(g["o"]):
        return f"{len(g['o'])} nodes for {len(e['o'])}"
    for w, x in zip(e["o"], g["o"]):
        for k in ("n", "par", "pm", "rm"):
            if w[k] != x[k]:
                return f"node {w['n']}: {k} expected {w[k]} got {x[k]}"
        st = list(w["st"])
        if st[3] != "error":
            st[3] = [Q * v for v in st[3]]
        for name, u, v in zip(("position", "velocity", "rotation", "angular velocity", "scale", "origin", "frame"), st, x["st"]):
            if not near(u, v):
                return f"node {w['n']}: static {name} expected {u} got {v}"
        for t, (u, v) in enumerate(zip(w["at"], x["at"])):
            if v == "error":
                return f"node {w['n']}: no pose at time {t}"
            for k, val in world(u).items():
                if not near(val, v[k]):
                    return f"node {w['n']}: world {k} at time {t} expected {val} got {v[k]}"
    return None


def play(ctx, exe, walks, what, far, n=8):
    n = min(n, len(walks))
    vf.parallel_replay(ctx, exe, [walks[i::n] for i in range(n)], cmp=cmp, what=what, reset=dict(op="reset"),
                       to_cmd=lambda a: dict(a, times=FAR if far else [[0, 1]]))
