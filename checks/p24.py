"""P24: point sources, their blur, trails and what hides them (spec/Render.tla)."""
import render

META = dict(
    technique="TLA+ spec Render: where each point source's blur goes, what hides it and how long a moving source is over each pixel in exact 1/32 pixel arithmetic, "
              "conservation checked by TLC; drawn scenes around tile and image borders replayed into huira and every pixel's received power compared with the sum",
    note="Blur kernels are an independent computation of the Airy pattern and of the disk of defocus; per-pixel tolerance 0.1-0.2 %.")


def run(ctx):
    render.check(ctx, render.points, 2400 if ctx.thorough else 300, 22)
