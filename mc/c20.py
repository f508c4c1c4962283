"""Entropy based decoder over the hard decision code decoders (weighted bit flipping and Gallager)."""
from mc.c19 import flights, histories, jobs_for, life, lives, recorded


def run(ctx):
    jobs = jobs_for("wbf", ctx.quick) + jobs_for("gal", ctx.quick) + jobs_for("gal", ctx.quick, method=3)
    ctx.bounds = {"histories": "all of 3-6 (thorough up to 7) buffers, each one of 2-4 words with one of 2-3 answers of the code decoder", "settings": f"{len({str(j[0]) for j in jobs})}, summing and forcing methods",
                  "life": "200 (600) buffers of 16 bits, 92 settings with windows up to 50"}
    ctx.assumptions = ["information bits come first", "forcing method with a window; methods 1 and 2 are marked unusable in the code and not judged"]
    ctx.explore("histories", histories, jobs)
    ctx.explore("life", life, lives("wbf", ctx.quick) + lives("gal", ctx.quick) + lives("gal", ctx.quick, method=3))
    ctx.bounds["recorded"] = "stretches of 40 (200) buffers of a recorded flight, 15 settings"
    ctx.explore("recorded", recorded, flights("wbf", ctx.quick) + flights("gal", ctx.quick) + flights("gal", ctx.quick, method=3))
