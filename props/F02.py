TECHNIQUE = "TLA+ (TLC): what a valid splitting is, as a relation; cases enumerated by TLC, the real splittings (in memory and after the wire) recorded and checked against the relation"
NOTE = ("All lengths and all maximum sizes in small ranges for every kind and flag, boundary lengths and sizes above that; maximum sizes too small for a fragment to carry a byte are out of scope.")

R = lambda a, b: "%d..%d" % (a, b)
S = lambda *l: "{" + ",".join(map(str, l)) + "}"


def run(ctx):
    q = ctx.quick
    b = ctx.build("frames")
    n = 7 if q else 12
    groups = [dict(MDs=R(0, n), Datas=R(0, n), Maxs=R(7, 2 * n + 14)),
              dict(MDs=S(0, 1, 100, 1015, 1024, 3000), Datas=S(0, 1, 100, 1018, 1024, 3000), Maxs=S(16, 64, 1023, 1024, 1028, 1029, 1033, 4096))]
    if not q:
        groups.append(dict(MDs=S(0, 1, 10, 20, 40), Datas=R(0, 40), Maxs=R(11, 60)))
        groups.append(dict(MDs=R(0, 40), Datas=S(0, 1, 10, 40), Maxs=R(11, 60)))
        groups.append(dict(MDs=S(0, 255, 65535, 65536, 100000), Datas=S(0, 256, 65535, 65536, 100000), Maxs=S(1000, 16384, 65535, 65536, 65545, 65546, 70000, 200010)))
    for g in groups:
        beh = ctx.gen("Frag", "Frag", over=g)
        tr = ctx.replay(b, beh, test="TestFrag", collect=True, what="frames to split")
        ctx.cov["traces_validated_against_impl"] -= len(tr)
        if ctx.violations:
            return
        traces = []
        for _, x in tr:
            traces.append(x[0])
            # after the wire: kinds without a complete flag always read as complete
            for f in x[1][1:]:
                if f["k"] in ("rr", "fnf", "rs"):
                    f["complete"] = False
            if x[1] != x[0]:
                traces.append(x[1])
        for k in range(0, len(traces), 20000):
            ctx.validate("FragTrace", "FragTrace", traces[k:k + 20000], heap="12g", over=g)
