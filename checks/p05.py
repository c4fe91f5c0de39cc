"""P05: a node's world pose is the composition of the poses above it (spec/PoseAlg.tla, spec/NodeState.tla)."""
import vf
from nodestate import Q, near, play, world

META = dict(
    technique="TLA+ specs PoseAlg (laws of composing, inverting and applying poses, checked by TLC over exact integer poses) and NodeState (world pose of "
              "every node under every mixture of settings), simulated by TLC; behaviours replayed into Transform<float/double> and into real scene trees",
    note="Exact arithmetic: quarter-turn orientations and whole quarter-turns per second. Uneven scales only where nothing hangs below (a pose cannot "
         "represent shear). The ephemeris is a stand-in for CSPICE with exact motions.")
PTS = [[1, 0, 0], [0, -2, 5], [3, 3, -1]]


def cmp(a, e, g):
    w = e["o"]
    vel = [[x + Q * y for x, y in zip(u, v)] for u, v in zip(w["va"], w["vb"])]
    pw = world(w["pose"])
    p = w["pose"]
    mag = (max(abs(x) for v in (pw["p"], pw["v"]) for x in v) + 10 * max(pw["s"])) * (1 + max(map(abs, pw["w"])))
    for side, tol in (("d", 1e-9), ("f", 3e-5), ("x", 3e-5)):
        x = g["o"][side]
        want = dict(pts=w["pts"], dirs=w["dirs"], mat=[v + [1] for v in w["pts"]], matdirs=[v + [0] for v in w["dirs"]],
                    vel=vel, vel2=vel,
                    appvel=[[d + v for d, v in zip(dv, pw["v"])] for dv in w["dirs"]],
                    appw=[[sum(m * c for m, c in zip(row, pt)) + pw["w"][i] for i, row in enumerate(p["m"])] for pt in PTS])
        for k, v in pw.items():
            if not near(v, x["pose"][k], tol, mag if k in "pv" else None):
                return f"{side}: {k} expected {v} got {x['pose'][k]}"
        for k, v in want.items():
            if not near(v, x[k], tol, mag):
                return f"{side}: {k} expected {v} got {x[k]}"
    return None


def run(ctx):
    exe = vf.build(ctx, "nodestate", libs="all", opt="-O1")
    alg = vf.build(ctx, "pose", libs="all", opt="-O1")
    num = 2000 if ctx.thorough else 300
    w = vf.sim_walks(ctx, "PoseAlg", "PoseAlg.cfg", num=num, depth=30)
    vf.parallel_replay(ctx, alg, [w[i::4] for i in range(4)], cmp=cmp, what="algebra of poses", reset=dict(op="reset"),
                       to_cmd=lambda a: dict(a, points=PTS))
    num = 1200 if ctx.thorough else 100
    play(ctx, exe, vf.sim_walks(ctx, "NodeState", "NodeState_sim.cfg", num=num, depth=100), "trees of six nodes", True)
