"""P06: a view shows the scene as it was when it was built (spec/SceneFreeze.tla)."""
import vf

META = dict(
    technique="TLA+ spec SceneFreeze checked by TLC; all transitions of a small instance and drawn histories of scenes with moving, turning and scaled "
              "frames, evaluated by TLC, are replayed into real scenes and every view held is probed with rays from six sides after every step, under "
              "address/UB sanitizers",
    note="Bodies sit on a lattice, orientations are quarter turns and motions whole steps a second, so that every hit distance is an exact integer. "
         "Settings of shared assets (materials, light power, camera optics) are read when rendering and are not part of a view. Point-like bodies and "
         "stars of a view are covered by P24.")
V = [-40, -20, 0, 20, 40]


def spot(rng):
    return [rng.choice(V) if rng.random() < .5 else 0 for _ in range(3)]


def speed(rng):
    v = [0, 0, 0]
    v[rng.randrange(3)] = rng.choice([-20, 20, 20, -40])
    return v


def draw(rng, n):
    """a history of one scene; cameras are never scaled, bodies with parts below only evenly"""
    kind, par, live, w = [None, ""], [0, 0], {1}, []      # index = node number
    plain = {1}                                            # frames that may carry cameras
    scaled = set()

    def under(i):
        return {i} | set().union(*[under(j) for j in live if par[j] == i] or [set()])

    dropped = set()

    def place(p, a):
        w.append(dict(op="place", i=p, x=a, y=spot(rng)))
        if a in dropped:
            return 0
        kind.append(a)
        par.append(p)
        live.add(len(kind) - 1)
        return len(kind) - 1
    cam = place(1, "C")
    f = place(1, "")
    plain.add(f)
    place(f, "D")
    while len(w) < n:
        op = rng.choices(["place", "p", "m", "s", "v", "k", "remove", "drop", "sensor", "view", "forget", "end", "dead"],
                         [22, 10, 6, 4, 6, 4, 4, .8, 1.5, 18, 1, .15, 1])[0]
        frames = [i for i in live if kind[i] == ""]
        if op == "place":
            a = rng.choice(["", "", "E1", "E2", "E3", "B", "L", "M", "E1", "B", "C", "D"])
            p = rng.choice([i for i in frames if a not in "CD" or a == "" or i in plain])
            if sum(kind[i] == a for i in live) > 3 or len(live) > 14:
                continue
            if a == "" and p in scaled:
                continue
            i = place(p, a)
            if a == "" and p in plain and rng.random() < .4:
                plain.add(i)
        elif op in "pmsvk":
            i = rng.choice([i for i in live if i != 1] or [0])
            if not i:
                continue
            if op == "s":
                if i in plain or kind[i] in ("C", "D"):
                    continue
                x = [rng.choice([1, 2]) for _ in range(3)] if kind[i] not in ("", "M") else [rng.choice([1, 2])] * 3
                if par[i] not in plain:                     # scaled once, so that extents stay below half the spacing
                    continue
                if kind[i] == "" and any(kind[j] == "" for j in under(i) - {i}):
                    continue
                scaled.add(i)
            else:
                x = dict(p=lambda: spot(rng), m=lambda: [rng.choice([1, 2, 3, -1, -3]), rng.randrange(4)],
                         v=lambda: speed(rng) if rng.random() < .8 else [0, 0, 0],
                         k=lambda: [[1, 0, 0], [0, 1, 0], [0, 0, -1], [0, 0, 0]][rng.randrange(4)])[op]()
            w.append(dict(op="set", i=i, x=op, y=x))
        elif op == "remove":
            i = rng.choice([i for i in live if i != 1] or [0])
            if i and (kind[i] not in ("C", "D") or rng.random() < .4):
                w.append(dict(op="remove", i=i))
                live -= under(i)
        elif op == "drop":
            x = rng.choice(["E1", "E2", "E3", "B", "L", "M", "C", "D", "gE", "gS", "gB"])
            if x in "CD" and rng.random() < .6:
                continue
            w.append(dict(op="drop", x=x))
            gone = dict(gE=["E2", "E3"], gS=["E1"], gB=["B"]).get(x, [x])
            dropped |= set(gone)
            live -= {i for i in live if kind[i] in gone}
        elif op == "sensor":
            w.append(dict(op="sensor", x=rng.choice("CD"), y=rng.randrange(4)))
        elif op == "view":
            cams = [i for i in live if kind[i] in ("C", "D")]
            others = [i for i in range(1, len(kind)) if kind[i] not in ("", "C", "D")]
            if rng.random() < .04 and others:
                w.append(dict(op="view", i=rng.choice(others), x=1, y=1))
            elif cams:
                w.append(dict(op="view", i=rng.choice(cams), x=rng.randint(1, 3), y=rng.choice([1, 1, 2, 3])))
        elif op == "forget":
            w.append(dict(op="forget", x=rng.randint(1, 3)))
        elif op == "dead":
            dead = [i for i in range(2, len(kind)) if i not in live]
            if not dead:
                continue
            i = rng.choice(dead)
            w.append(rng.choice([dict(op="set", i=i, x="p", y=spot(rng)), dict(op="remove", i=i)] +
                                ([dict(op="view", i=i, x=2, y=1)] if kind[i] else [dict(op="place", i=i, x="E1", y=spot(rng))])))
        elif op == "end":
            w.append(dict(op="end"))
            for _ in range(3):
                w.append(dict(op="forget", x=rng.randint(1, 3)))
            return w
    return w


def cmp(a, e, g):
    if e["r"] != g["r"]:
        return f"expected {e['r']} got {g['r']}"
    for v, (we, wg) in enumerate(zip(e["o"], g["o"])):
        if not isinstance(wg, list) or len(we) != len(wg):
            return f"view {v + 1}: {wg}"
        for t, (x, y) in enumerate(zip(we, wg)):
            if isinstance(y, list) and all(isinstance(h, list) for h in y):
                missing = [h for h in x if h not in y]
                extra = [h for h in y if h not in x]
                if missing or extra:
                    return f"view {v + 1}, sample {t + 1} ([1 bodies 2 lights 3 all, axis, sense, lane, lane, distance]): missing {missing[:4]} unexpected {extra[:4]}"
            else:
                return f"view {v + 1}, sample {t + 1}: {y}"
    return None


def run(ctx):
    exe = vf.build(ctx, "scenefreeze", libs="all", opt="-O1", san=True)
    g = vf.build_graph(ctx, "SceneFreeze", "SceneFreeze_motion.cfg" if ctx.thorough else "SceneFreeze_graph.cfg")
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=60, maxsteps=None if ctx.thorough else 4000)
    assert left == 0 or not ctx.thorough
    vf.parallel_replay(ctx, exe, [walks[i::8] for i in range(8)], cmp=cmp, to_cmd=lambda a: dict(a, slots=1), what="small scenes, all transitions")
    cmds = [draw(ctx.rng, 60) for _ in range(400 if ctx.thorough else 60)]
    walks = vf.guided(ctx, "SceneFreeze_G", "SceneFreeze_G.cfg", cmds, jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::8] for i in range(8)], cmp=cmp, to_cmd=lambda a: dict(a, slots=3), what="histories with three views held")
