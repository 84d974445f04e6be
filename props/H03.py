"""Instances of modules, unusable and failing ones among them."""
from props.M01 import S, guest

TECHNIQUE = "TLA+ (TLC): specification of hosts whose modules are unusable, fail at a frame or exit; every behaviour replayed with WebAssembly modules made for it"
NOTE = ("Modules that lack a function, have it with another signature or as something else, have no memory, fail, exit or call back too early while they start, announce lists of operations that are outside the memory, cut off or no lists; "
        "modules that trap or exit at a request of every kind, before, between or behind their answers, or at a later frame of the stream; up to three instances on two hosts, of the same module or of different ones. What a host tells about a module that lost frames without failing is not specified.")
HOWS = "<<<<1,2,5,6,7,8,9,10>>,<<1,6,7>>,<<1,5,6,7,8,9,10,11>>,<<1,5,6,7,8,9,10,11>>>>"
SMALL = "<<<<1,2,6,7>>,<<1,6>>,<<1,10,11>>,<<1,11>>>>"


def mod(bad=0, hows=HOWS):
    return "[bad |-> %d, hows |-> %s]" % (bad, hows)


def shapes(inits, sends, lists, mems):
    return "[init: %s, send: %s, list: %s, mem: %s]" % tuple(S(('"%s"' % y) if y not in ("TRUE", "FALSE") else y for y in x) for x in (inits, sends, lists, mems))


def run(ctx):
    q = ctx.quick
    b = ctx.build("mesh")
    beh = []

    def gen(mods, shp="{}", sim=None, depth=None, acts='{"release", "close"}', kinds="{1, 2, 3, 4}", cfg="Modules", **k):
        beh.extend(ctx.gen("Modules", cfg, defs={"Mods": S(mods), "Shapes": shp, "Acts": acts, "Kinds": kinds}, over=k, sim=sim, depth=depth))
    every = ["ok", "none", "params", "trap", "global"]
    # every way a start fails, next to one that works
    gen([mod(x, SMALL) for x in range(18)], shapes(every, every, every, ["TRUE", "FALSE"]), D=1, MaxInst=1)
    gen([mod(x, SMALL) for x in range(18)], shapes(["ok", "none"], every, ["ok", "trap"], ["TRUE"]), D=2 if q else 3, MaxInst=2 if q else 3, kinds="{1}")
    gen([mod()], cfg="ModulesCover", MaxInst=1, MaxHeld=2, D=30)
    gen([mod(0, SMALL)], cfg="ModulesCover", MaxInst=2, MaxHeld=2, D=30, kinds="{1, 3}" if q else "{1, 3, 4}", Hosts="{1}")
    gen([mod(), mod(0, SMALL), mod(14, SMALL), mod(17, SMALL)] + [mod(x, SMALL) for x in (1, 2, 7, 9, 12)],
        shapes(["ok"], ["ok", "trap", "params"], ["ok", "none"], ["TRUE"]), D=12, MaxInst=3, MaxHeld=4, Hosts="{1, 2}", sim=150 if q else 6000, depth=14, Sample=2)
    for k in range(0, len(beh), 4000):
        ctx.replay(b, beh[k:k + 4000], test="TestModules", env=guest(ctx), what="lives of instances")
        if ctx.violations:
            return
