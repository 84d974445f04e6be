"""Linking in a mesh."""
import os, random

TECHNIQUE = "TLA+ (TLC): specification of a mesh with module families; every behaviour replayed with WebAssembly modules made for it"
NOTE = ("Every order of loading up to three module files, each from a family of modules with exports, imports, relays, colliding names and names that differ only in kind; every operation is called after each step, directly and through the modules that import it, with metadata of any size; "
        "families of random modules; bad files. A small WebAssembly guest, made into a module of its own for each load, answers.")


def mod(ex, im=()):
    q = lambda s: '"%s"' % s
    return "[ex |-> <<%s>>, im |-> <<%s>>]" % (
        ", ".join("[n |-> %s, k |-> %d, i |-> %d, how |-> %d]" % (q(n), k, i, how) for n, k, i, how in ex),
        ", ".join("[n |-> %s, k |-> %d, i |-> %d]" % (q(n), k, i) for n, k, i in im))


S = lambda l: "{" + ", ".join(l) + "}"
A1 = mod([("x.f", 1, 0, 1), ("x.f", 3, 0, 1), ("x.g", 4, 0, 1), ("x.f", 2, 0, 1)])
A2 = mod([("x.f", 1, 2, 1), ("x.g", 1, 0, 1), ("x.f", 3, 1, 1), ("x.g", 4, 3, 1), ("x.f", 2, 5, 1)])
A3 = mod([("x.g", 1, 0, 1), ("x.f", 4, 0, 1)])
AF = mod([("x.f", 1, 1, 5), ("x.f", 3, 2, 5), ("x.g", 4, 2, 5)])
AH = mod([("x.f", 1, 3, 2), ("x.f", 3, 3, 1), ("x.f", 2, 3, 1)])
B1 = mod([("y.f", 1, 0, 17), ("y.f", 3, 1, 16), ("y.g", 4, 0, 18), ("y.f", 2, 0, 16)],
         [("x.f", 1, 1), ("x.f", 3, 0), ("x.g", 4, 2), ("x.f", 2, 0)])
B2 = mod([("y.f", 1, 4, 16), ("x.f", 1, 1, 1)], [("x.f", 1, 0), ("x.g", 1, 200)])
B3 = mod([("y.f", 1, 0, 1), ("y.f", 3, 0, 1), ("y.g", 4, 1, 255)], [("x.g", 4, 239), ("z.f", 1, 0)])
C1 = mod([("z.f", 1, 0, 16), ("z.f", 3, 3, 17), ("z.f", 2, 1, 16)], [("y.f", 1, 0), ("y.f", 3, 1), ("y.f", 2, 0), ("x.f", 1, 1)])
C2 = mod([("z.f", 1, 1, 17), ("z.g", 4, 0, 16), ("x.f", 1, 4, 1)], [("y.f", 1, 1), ("y.g", 4, 0)])
E0 = mod([])
NAMES = S('"%s"' % n for n in ("x.f", "x.g", "y.f", "y.g", "z.f", "z.g"))


def randmod(r):
    """a module of any shape"""
    names = ["x.f", "x.g", "y.f", "y.g", "z.f", "z.g"]
    im, ex, used = [], [], set()
    keys = [(n, k) for n in names for k in (1, 2, 3, 4)]
    r.shuffle(keys)
    nums = {k: r.sample(range(0, 12), 12) for k in (1, 2, 3, 4)}
    for n, k in keys[:r.randint(0, 5)]:
        i = nums[k].pop() if r.random() < .5 else sum(1 for x in im if x[1] == k)
        if r.random() < .1:
            i = 239 - r.randint(0, 3)  # stands for one of the largest numbers
        im.append((n, k, i))
    im = [x for j, x in enumerate(im) if (x[1], x[2]) not in {(y[1], y[2]) for y in im[:j]}]
    nums = {k: r.sample(range(0, 12), 12) for k in (1, 2, 3, 4)}
    for n, k in keys[5:5 + r.randint(0, 6)]:
        how = 5 if r.random() < .1 else 1
        rel = [x for x in im if x[1] == k]
        if rel and r.random() < .6:
            how = 16 + r.choice(rel)[2]
        elif k == 1 and r.random() < .12:
            how = 2
        ex.append((n, k, nums[k].pop(), how))
    return mod(ex, im)


def guest(ctx):
    return {"VH_GUEST": os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "mesh", "guest.wasm")}


def run(ctx):
    q = ctx.quick
    b = ctx.build("mesh")
    beh = []

    def gen(mods, sim=None, depth=None, acts="{}", ticks="{}", **k):
        k.setdefault("MaxLoads", k["D"])
        beh.extend(ctx.gen("Mesh", "Mesh", defs={"Mods": S(mods), "Names": NAMES, "Acts": acts, "Ticks": ticks}, over=k, sim=sim, depth=depth))
    gen([A1, A2, B1, B2, C1, E0] if q else [A1, A2, A3, AF, B1, B2, B3, C1, C2, E0], D=3)
    r = random.Random(ctx.seed)
    for n in range(4 if q else 40):
        gen([randmod(r) for _ in range(40)], D=7, MaxLoads=6, acts='{"bad", "fnf"}', sim=150 if q else 1000, depth=9, Sample=2)
    if not q:
        gen([A1, A2, B1, B2, C1, AF], D=4)
    for k in range(0, len(beh), 4000):
        ctx.replay(b, beh[k:k + 4000], test="TestMesh", env=guest(ctx), what="loading sequences")
