"""Replacing modules in a mesh."""
import json
import random

from props import M01
from props.M01 import S, NAMES, mod, guest, randmod

TECHNIQUE = "TLA+ (TLC): specification of a mesh whose modules are replaced, replayed with WebAssembly modules; traces of concurrent calls and loads validated against MeshTrace"
NOTE = ("Every sequence of loads and reloads of two files - versions that renumber, drop, fail or hold back an operation, an importer, another exporter - with calls held back over a reload, time passing within and beyond the grace period, bad files; every operation called and every instance asked after each step; "
        "random families; concurrent callers (direct and through an importer) while files are loaded, under the race detector.")
V1 = mod([("x.f", 1, 0, 1), ("x.g", 1, 1, 2), ("x.f", 2, 0, 1)])
V2 = mod([("x.f", 1, 2, 1), ("x.g", 1, 0, 2), ("x.f", 2, 1, 1), ("x.f", 3, 0, 1), ("x.f", 4, 5, 1)])
V3 = mod([("x.f", 3, 1, 1), ("x.f", 4, 0, 1)])
R1 = mod([("y.f", 1, 0, 17), ("y.g", 1, 3, 16), ("y.f", 2, 2, 16), ("y.f", 3, 0, 16), ("y.f", 4, 1, 16)],
         [("x.f", 1, 1), ("x.g", 1, 0), ("x.f", 2, 0), ("x.f", 3, 0), ("x.f", 4, 0)])
R2 = mod([("y.g", 1, 0, 17), ("y.f", 1, 1, 16), ("x.g", 1, 2, 2)], [("x.f", 1, 0), ("x.g", 1, 1)])


def run(ctx):
    q = ctx.quick
    b = ctx.build("mesh")
    beh = []

    def gen(mods, sim=None, depth=None, acts='{"hold", "fnf"}', ticks="{2, 10}", names=NAMES, cfg="Mesh", **k):
        beh.extend(ctx.gen("Mesh", cfg, defs={"Mods": S(mods), "Names": names, "Acts": acts, "Ticks": ticks}, over=k, sim=sim, depth=depth))
    N4 = S('"%s"' % n for n in ("x.f", "x.g", "y.f", "y.g"))
    gen([V1, V2, V3, R1], names=N4, D=3 if q else 4, MaxLoads=4, Helds=2, Files="{1, 2}", acts='{"hold"}')
    gen([V1, V2, R1] if not q else [V1, R1], names=N4, cfg="MeshCover", MaxLoads=3, Files="{1, 2}", acts='{"hold"}', D=30, Helds=1 if q else 2)
    gen([V1, V2, V3, R1, R2], names=N4, D=10, MaxLoads=6, Files="{1, 2, 3}", acts='{"hold", "bad", "fnf"}', sim=200 if q else 6000, depth=12, Sample=2)
    r = random.Random(ctx.seed + 77)
    for n in range(1 if q else 20):
        gen([randmod(r) for _ in range(40)], D=12, MaxLoads=7, Files="{1, 2}", acts='{"hold", "bad", "fnf"}', sim=100 if q else 1000, depth=14, Sample=2)
    for k in range(0, len(beh), 4000):
        ctx.replay(b, beh[k:k + 4000], test="TestMesh", env=guest(ctx), what="reloading sequences")
        if ctx.violations:
            return
    race = ctx.build("mesh", race=True)
    n = 300 if q else 6000
    for k in range(0, n, 1500):
        lines = [json.dumps([{"seed": ctx.seed * 1000003 + k + j}]) for j in range(min(1500, n - k))]
        tr = ctx.replay(race, lines, test="TestMeshConc", env=guest(ctx), collect=True, what="loads under calls")
        ctx.cov["traces_validated_against_impl"] -= len(tr)
        if ctx.violations:
            return
        ctx.validate("MeshTrace", "MeshTrace", [{"log": x} for _, x in tr])
