TECHNIQUE = "TLA+ (TLC): decoding specified on every byte string; truncations, byte corruptions and short arbitrary strings enumerated with what they say, replayed into all decoders"
NOTE = ("Every truncation of the enumerated messages; every position replaced by boundary bytes; every string to a small length over a small alphabet behind valid prefixes. Memory is bounded by 64 KB plus 64 times the input. "
        "Inputs are given in slices with more memory behind them, so that reading past the end is seen.")
from props.F01 import consts, ALL, SET, PAT, Q

BYTES = (0, 1, 2, 5, 127, 128, 254, 255)


def run(ctx):
    q = ctx.quick
    b = ctx.build("frames")
    g = []
    add = lambda **k: g.extend(ctx.gen("Frames", "Frames", **consts(**k)))
    add(kinds=ALL, ns=(0x01020304,), mds=(0, 1, 4), datas=(0, 3), tokens=(0, 1, 4), mimes=(0, 3), durs=(7,), phase="cut")
    add(kinds=ALL, ns=(0, 0xffffffff), mds=(0, 300), datas=(0, 2), tokens=(0, 2), mimes=(0, 255), durs=(0xffffffff,), phase="cut") if not q else \
        add(kinds=["setup", "rc", "payload"], ns=(0xffffffff,), mds=(300,), datas=(2,), tokens=(3,), mimes=(255,), durs=(0xffffffff,), phase="cut")
    vals = BYTES if q else tuple(range(256))
    add(kinds=ALL, ns=(0x01020304,), mds=(0, 4), datas=(0, 3) if not q else (3,), tokens=(0, 4), mimes=(3,), durs=(7,), phase="corrupt", vals=vals)
    if not q:
        add(kinds=["setup"], mds=(0, 2), datas=(0, 2), tokens=(0, 300), mimes=(0, 2), phase="corrupt", vals=BYTES)
        add(kinds=["rc", "payload"], mds=(300, 65536), datas=(0, 2), phase="corrupt", vals=(0, 255)) if False else None
    # arbitrary bodies behind every frame type
    g += ctx.gen("Bodies", "Bodies", over={"N": 4 if q else 5, "Alphabet": "{0, 1, 255}" if q else "{0, 1, 3, 255}"})
    ctx.replay(b, g, test="TestFrames", what="damaged frames")
    o = ctx.build("optable")
    t = []
    add = lambda over=None, **k: t.extend(ctx.gen("OpTable", "OpTable", over=over or {}, defs=k))
    add(Idxs=SET([Q(0x01020304)]), NSs=PAT(97, (0, 2)), Names=PAT(98, (1, 3)), over={"MaxOps": 2, "Phase": '"cut"', "Types": "{1, 4}", "Res": "{0, 2}", "Dirs": "{1}"})
    add(Idxs=SET([Q(0)]), NSs=PAT(97, (2,)), Names=PAT(98, (3,)), Vals=SET(map(str, vals)), over={"MaxOps": 2, "Phase": '"corrupt"', "Types": "{1}", "Res": "{0, 2}", "Dirs": "{1, 2}"})
    add(Idxs=SET([Q(0)]), NSs=PAT(97, (300,)), Names=PAT(98, (0,)), over={"MaxOps": 1, "Phase": '"cut"', "Types": "{1}", "Res": "{0}"})
    ctx.replay(o, t, test="TestTable", what="damaged operation lists")
    s = ctx.build("small")
    p = ctx.gen("PortIO", "PortIO", over={"Phase": '"cut"', "PortLens": "{0, 1, 2, 255, 256}", "DataLens": "{0, 1, 3}"})
    ctx.replay(s, p, test="TestPortIO", what="truncated port messages")
    A, E, N, Z = "Bs(<<97>>)", "<<>>", "Bs(<<97,98>>)", "Bs(<<195,169>>)"
    sec = lambda i, n, body, pad=0: "[id |-> %d, name |-> %s, body |-> %s, pad |-> %d]" % (i, n, body, pad)
    secs = SET([sec(0, A, "<<>>"), sec(0, N, "Pat(7,3)"), sec(0, E, "Pat(9,2)", 1), sec(1, E, "Pat(1,2)"), sec(11, E, "<<>>"), sec(0, Z, "Pat(3,1)", 4 if not q else 2)])
    c = []
    add = lambda over=None, **k: c.extend(ctx.gen("CustomSections", "CustomSections", over=over or {}, defs=k))
    add(Secs=secs, over={"MaxSecs": 3})
    add(Secs=secs, over={"MaxSecs": 2, "Phase": '"cut"'})
    add(Secs=SET([sec(0, A, "Pat(7,%d)" % n) for n in (0, 124, 125, 126, 127, 128, 300, 16381, 70000)] + [sec(2, E, "Pat(7,%d)" % n) for n in (127, 128, 16384)]), over={"MaxSecs": 2})
    add(Secs=secs, Vals=SET(map(str, vals)), over={"MaxSecs": 1 if q else 2, "Phase": '"corrupt"'})
    add(Secs=SET([sec(0, A, "Pat(7,1)")]), Vals=SET(map(str, vals)), over={"MaxSecs": 2, "Phase": '"corrupt"'})
    ctx.replay(s, c, test="TestSections", what="module files")
