TECHNIQUE = "TLA+ (TLC): frame layouts as an executable specification; every enumerated frame with its prescribed bytes replayed into Size/Encode/Decode and the connection reader"
NOTE = ("All combinations of kinds, flags and boundary values in groups (flags x small fields complete; each length field over its boundaries up to its maximum; every number field over boundary values); "
        "contents of fields are patterns, not arbitrary bytes.")

Q = lambda v: "<<%d,%d,%d,%d>>" % (v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255)
SET = lambda l: "{" + ",".join(l) + "}"
PAT = lambda s, l: SET("Pat(%d,%d)" % (s, n) for n in l)
NUMS = [0, 1, 2, 127, 128, 255, 256, 1000, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
DURS = [0, 1, 999, 1000, 4294, 4295, 4296, 65535, 65536, 90000, 0x7fffffff, 0x80000000, 0xffffffff]
SIDS = [0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 0xffffff, 0x1000000, 0x7ffffffe, 0x7fffffff]
ALL = ["setup", "rr", "fnf", "rs", "rc", "payload", "reqn", "cancel", "error"]


def consts(kinds, sids=(1,), ns=(1,), mds=(0, 3), datas=(0, 4), tokens=(0,), mimes=(0,), durs=(0,), vers=(1,), phase="round", vals=(0,)):
    d = {"Kinds": SET('"%s"' % k for k in kinds), "Sids": SET(map(str, sids)), "Ns": SET(map(Q, ns)), "MDs": PAT(5, mds), "Datas": PAT(77, datas),
         "Tokens": PAT(150, tokens), "Mimes": PAT(97, mimes), "Durs": SET(map(Q, durs)), "Vers": SET(map(str, vers)), "Vals": SET(map(str, vals)), "Phase": '"%s"' % phase}
    return dict(defs=d)


def run(ctx):
    q = ctx.quick
    reqs = ["rr", "fnf", "rs", "rc", "payload"]
    g = []
    add = lambda **k: g.extend(ctx.gen("Frames", "Frames", **consts(**k)))
    # every combination of kind, flags, small fields, stream numbers and amounts
    add(kinds=reqs + ["reqn", "cancel", "error"], sids=SIDS, ns=NUMS, mds=(0, 1, 2), datas=(0, 1, 3))
    # lengths of metadata and data
    lens = (0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 70000) if q else (0, 1, 2, 3, 4, 5, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 8191, 8192, 16383, 16384, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 1000000)
    add(kinds=reqs + ["error"], sids=(7,), ns=(258,), mds=lens, datas=lens)
    # the largest that the three byte lengths can say
    add(kinds=["rr", "rc", "payload"] if q else reqs, sids=(0x7fffffff,), ns=(0xffffffff,), mds=(0xffffff,), datas=(0, 1))
    add(kinds=["rs", "payload"] if q else reqs, sids=(9,), ns=(7,), mds=(0,), datas=(0xffffff - 6, 0xffffff - 10))
    # setup: versions, durations, lease, token, mime types, metadata, data
    add(kinds=["setup"], durs=DURS, vers=(1, 2), tokens=(0, 5), mimes=(0,), mds=(0, 2), datas=(6,))
    add(kinds=["setup"], vers=(0, 255, 256, 65535), mds=(0,), datas=(2,))
    add(kinds=["setup"], vers=(1,), tokens=(0, 1, 255, 256, 65533, 65535), mimes=(0, 1, 127, 128, 255), mds=(0, 1, 300), datas=(0, 1))
    add(kinds=["setup"], tokens=(0, 1, 2, 3, 17, 254, 32767, 32768, 65532, 65534), mimes=(0, 24, 254), mds=(0, 1, 255, 256, 65535, 65536), datas=(0, 12, 70000))
    add(kinds=["setup"], tokens=(0, 9), mimes=(10,), mds=(0xffffff,), datas=(0,))
    if not q:
        m = tuple(range(0, 40))
        add(kinds=reqs, sids=(3,), ns=(5,), mds=m, datas=m)
        add(kinds=["setup"], tokens=tuple(range(0, 12)), mimes=tuple(range(0, 9)), mds=(0, 1, 2), datas=(0, 1, 2))
        add(kinds=["setup"], mimes=tuple(range(0, 256)), tokens=(0,), mds=(0,), datas=(0,))
    b = ctx.build("frames")
    ctx.replay(b, g, test="TestFrames", what="frames")
