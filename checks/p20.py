"""P20: star catalogue files (spec/StarFile.tla)."""
import vf

META = dict(
    technique="TLA+ spec StarFile checked by TLC; all transitions of a small instance and drawn behaviours over catalogues of up to "
              "60 stars, evaluated by TLC, are replayed into StarCatalog under address/UB sanitizers",
    note="Files are damaged by truncation at every byte, by appended bytes and by every header field; changed bytes inside a star "
         "record are not detectable in this format and are not tried. The order of stars of equal magnitude is not compared.")
NAN, INF = 99999, 9999


def draw(rng, n):
    w, size, intact = [], 0, False
    lim = [INF, -INF, 5, 6, 7, 10, 100]
    for _ in range(n):
        op = rng.choices(["add", "type", "sort", "clip", "fresh", "write", "write_fails", "read", "load", "damage", "remove",
                          "read_folder", "name"], [30, 1, 2, 1.2, .4, 8, .8, 14, 2, 3, .3, .1, 4])[0]
        c = dict(op=op)
        if op == "add":
            for _ in range(rng.choice([1, 1, 2, 5])):
                r = rng.random()
                m = NAN if r < .1 else rng.choice([INF, -INF]) if r < .15 else rng.randint(0, 12) if r < .8 else rng.randint(-100, 200)
                w.append(dict(op="add", t=rng.randint(1, 2900), m=m))
            continue
        if op == "type":
            c.update(x=rng.choice([0, 1, 1, 7]))
        elif op in ("clip", "read", "load"):
            c.update(l=rng.choice(lim + [rng.randint(-20, 20) for _ in range(12)]))
        elif op == "write":
            intact = True
        elif op == "remove":
            intact = False
        elif op == "read_folder" and intact is not False:
            continue
        elif op == "write_fails":
            c.update(where=rng.choice(["full", "folder", "nowhere"]))
        elif op == "name":
            c.update(i=rng.randint(0, 30))
        elif op == "damage":
            if intact is not True:
                continue
            intact = None
            how = rng.choice(["truncate", "append", "magic", "version", "count"])
            k = dict(truncate=rng.randint(0, 400), append=rng.randint(0, 120), magic=rng.randint(0, 11),
                     version=rng.choice([1, 2, 3, 255]), count=rng.randint(0, 10))[how]
            c.update(how=how, k=k)
        w.append(c)
    return w


def cuts(rng, stars, step):
    """One file cut after every byte, and every other damage, each followed by reading."""
    w = [dict(op="add", t=rng.randint(1, 2900), m=rng.randint(0, 9)) for _ in range(stars)]
    n = 32 + 48 * stars
    dmg = [("truncate", k) for k in range(0, n, step)] + [("append", k) for k in (0, 1, 7, 31, 47, 95)]
    dmg += [("magic", k) for k in range(12)] + [("version", k) for k in (1, 2, 255)] + [("count", k) for k in range(11)]
    for how, k in dmg:
        w += [dict(op="write"), dict(op="damage", how=how, k=k), dict(op="read", l=rng.choice([INF, 5, -INF]))]
    return w


def run(ctx):
    exe = vf.build(ctx, "star_file", libs="all", san=True, opt="-O1")
    g = vf.build_graph(ctx, "StarFile", "StarFile_thorough.cfg" if ctx.thorough else "StarFile_quick.cfg")
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=400)
    assert left == 0
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="small catalogues")
    cmds = [draw(ctx.rng, 150) for _ in range(900 if ctx.thorough else 90)]
    cmds += [cuts(ctx.rng, n, 1) for n in ((0, 1, 2, 3, 5) if ctx.thorough else (0, 2))]
    walks = vf.guided(ctx, "StarFile_G", "StarFile_G.cfg", cmds)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="catalogues and damaged files")
