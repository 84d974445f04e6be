TECHNIQUE = "TLA+ (TLC): hand-overs through the shared buffers as a state machine; all single hand-overs of small frames, pairs of boundary sizes and random histories replayed on the real host and guest"
NOTE = ("Hand-overs of up to three frames (eight in random histories) of every boundary size of the three length bytes and the buffers, cut off anywhere, announced too long, nested in the "
        "handling of another frame, with the module's memory moving in between; the host's buffers are always 16 KB, guests also get small and unequal ones.")


def run(ctx):
    q = ctx.quick
    host, guest = ctx.build("engine"), ctx.build("engine", tags="wasi")
    CUTS = '{"no","len","body","more","beyond"}'

    def rep(rnd, over, guests, **k):
        o = {kk: str(v) for kk, v in over.items()}
        g = ctx.gen("HandOver", "HandOverSim" if rnd else "HandOver", over=o, **k)
        if over.get("CapIn", 16384) == 16384 and over.get("CapOut", 16384) == 16384:
            ctx.replay(host, g, test="TestHandOver", what="hand-overs (host)")
        if guests:
            ctx.replay(guest, g, test="TestHandOver", what="hand-overs (guest)", env={"CAPIN": str(over.get("CapIn", 16384)), "CAPOUT": str(over.get("CapOut", 16384))})
    rep(False, dict(InSizes="{0,5,14,16,40}", OutSizes="{40,16381,16382}", MaxList=3, Cuts=CUTS), True)
    rep(False, dict(InSizes="{15,255,256,8189,16378,16381}", OutSizes="{16381,16382,16384,65535,65536,70000}", MaxList=2, Cuts='{"no","body","more","beyond"}'), True)
    rep(False, dict(InSizes="{5,30}", OutSizes="{30,16382}", MaxList=1 if q else 2, Cuts='{"no","len","beyond"}', D=2), True)
    SIZES = "{0,1,5,9,14,15,16,17,40,255,256,300,1000,4096,5000,8189,16378,16381}"
    OUTS = "{25,26,40,255,256,300,4096,16380,16381,16382,16384,16390,65535,65536,65600,200000}"
    rep(True, dict(InSizes=SIZES, OutSizes=OUTS, MaxList=8, Cuts=CUTS, D=15), True, sim=2500 if q else 30000, depth=17)
    # guests with small buffers, larger in one direction than in the other
    for ci, co in ((64, 200), (300, 40)) if q else ((64, 200), (300, 40), (40, 40), (65600, 70000), (70000, 300)):
        s = sorted({x for x in (5, 14, 16, 30, 47, 61, 62, 100, 296, 297, ci - 3, 256, 65535, 65536) if x + 3 <= ci})
        o = sorted({x for x in (25, 37, 38, 60, 61, 62, 196, 197, 198, 297, 300, co - 3, co - 2, co) if x >= 25})
        rep(True, dict(InSizes="{%s}" % ",".join(map(str, s)), OutSizes="{%s}" % ",".join(map(str, o)), MaxList=3, Cuts=CUTS, D=12, CapIn=ci, CapOut=co), True,
            sim=800 if q else 5000, depth=14)
