"""P23: every pixel of every output, every time the same (spec/Render.tla)."""
import render

META = dict(
    technique="TLA+ spec Render: scenes of rectangles, lamps and point sources, frozen views, buffers with any set of outputs; every render's picture is a function "
              "of the frozen view alone; drawn histories of looks, buffers, junk left in them and renders with changing thread counts and renderers replayed into huira, "
              "every pixel of every output compared",
    note="Schedules are sampled by running with 1 to 8 threads, not enumerated; light bounced off surfaces is only compared between renders.")


def run(ctx):
    render.check(ctx, render.same_pixels, 1600 if ctx.thorough else 180, 26)
