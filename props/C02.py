TECHNIQUE = "TLA+ (TLC): what every byte string says to every reader is specified (MsgPack, MsgRead, MsgSession, MsgDeep); strings and outcomes replayed into all readers"
NOTE = ("All forms of every value including longer ones than needed, every truncation, every position replaced by boundary bytes (thorough: a hundred values), all strings to a small length over an alphabet of format bytes, several values in a row with any choice of readers, hostile sizes and depths. "
        "Inputs lie in slices with more memory behind them. Memory is bounded by 64 KB plus 512 times the input; dynamic reads of values nested deeper than 1000 may be refused.")
from props.C01 import SET, SECS
ANY = "{0, 1, 5, 127, 128, 129, 130, 143, 144, 145, 146, 159, 160, 161, 191, %s, 224, 255}" % ", ".join(map(str, range(192, 224)))


def bases(q):
    ints = "{Small(0), Small(5), Small(127), Small(128), Small(255), Small(256), Small(32767), Small(32768), Small(65535), Small(65536), <<0,0,0,0,127,255,255,255>>, <<0,0,0,0,128,0,0,0>>, <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>, <<127,255,255,255,255,255,255,255>>, <<128,0,0,0,0,0,0,0>>, Rep(255, 8), Rep(255, 7) \\o <<224>>, Rep(255, 7) \\o <<223>>, Rep(255, 7) \\o <<128>>, Rep(255, 7) \\o <<127>>, Rep(255, 6) \\o <<127, 255>>, Rep(255, 4) \\o <<128,0,0,0>>, Rep(255, 4) \\o <<127,255,255,255>>}"
    fam = [
        "UNION {WideI(b) : b \\in %s} \\cup {Enc(U(b)) : b \\in {<<128,0,0,0,0,0,0,0>>, Rep(255, 8)}}" % ints,
        "{U8(192), U8(193), U8(194), U8(195), U8(202) \\o Bs(<<63,128,0,1>>), U8(202) \\o Bs(<<127,192,0,0>>), U8(203) \\o Bs(<<64,9,33,251,84,68,45,24>>)}",
        "UNION {{h \\o Pat(97, n) : h \\in WideHead(StrHead(n), n, 217, 218, 219) \\cup WideHead(BinHead(n), n, 196, 197, 198)} : n \\in {0, 1, 3, 31, 32, 255, 256}}",
        "UNION {{h \\o U8(id) \\o Pat(3, n) : h \\in WideHead(ExtHead(n), n, 199, 200, 201), id \\in {0, 1, 127, 128, 254, 255, 13}} : n \\in {0, 1, 2, 3, 4, 5, 8, 12, 16, 17}}",
        "{Enc(Time(b, ns)) : b \\in %s, ns \\in {0, 1, 999999999}} \\cup {ExtHead(n) \\o U8(13) \\o Bs(Stamp(b, 5)) : n \\in {8}, b \\in {<<0,0,0,1,0,0,0,5>>}}" % SECS,
        "UNION {{h \\o Fill(192, n) : h \\in WideHead(ArrHead(n), n, 0, 220, 221)} : n \\in {0, 1, 2, 15, 16, 17}} \\cup UNION {{h \\o Concat([j \\in 1..n |-> U8(j) \\o U8(195)]) : h \\in WideHead(MapHead(n), n, 0, 222, 223)} : n \\in {0, 1, 2, 15, 16}}",
        "{Enc(Arr(<<Arr(<<I(Small(300))>>), Map(<<<<Str(Pat(97, 2)), Bin(Pat(1, 3))>>>>), Nil>>)), Enc(Map(<<<<Arr(<<>>), Nil>>>>)), Enc(Map(<<<<Map(<<>>), Nil>>>>)), Enc(Map(<<<<Bin(Pat(1, 1)), Nil>>>>)), Enc(Map(<<<<Nil, Map(<<<<I(Small(1)), Arr(<<Ext(7, Pat(1, 4))>>)>>>>)>>>>)), "
        "Enc(Arr(<<Time(Small(9), 0), Time(<<0,0,0,1,0,0,0,5>>, 7), Ext(255, Pat(1, 3))>>)), Enc(Arr(<<Ext(13, Pat(1, 4)), Bool(TRUE)>>)), Enc(Map(<<<<Time(Small(9), 0), I(Small(1))>>>>)), Enc(Map(<<<<Bool(TRUE), I(Small(1))>>, <<Nil, I(Small(2))>>, <<F64(<<64,0,0,0,0,0,0,0>>), I(Small(3))>>>>))}",
    ]
    return fam


def run(ctx):
    q = ctx.quick
    b = ctx.build("msgpack")
    beh = []
    vals = SET(map(str, (0, 1, 128, 129, 145, 160, 192, 193, 196, 199, 205, 212, 221, 255) if q else sorted(set(range(0, 256, 4)) | set(range(124, 132)) | set(range(190, 226)) | {1, 143, 145, 159, 161, 255})))
    for k, f in enumerate(bases(q)):
        beh += ctx.gen("MsgRead", "MsgRead", over={"Cuts": "TRUE", "Deep": 6 if q else 16}, defs={"Bases": f, "Vals": vals, "Tails": "{<<>>, U8(192), Bs(<<129,1,2>>)}", "Alphabet": "{}"})
    beh += ctx.gen("MsgRead", "MsgRead", over={"N": 2}, defs={"Bases": "{}", "Vals": "{}", "Tails": "{}", "Alphabet": ANY})
    beh += ctx.gen("MsgRead", "MsgRead", over={"N": 3 if q else 4}, defs={"Bases": "{}", "Vals": "{}", "Tails": "{}", "Alphabet": "{0, 1, 129, 145, 161, 196, 199, 255}"})
    if not q:
        beh += ctx.gen("MsgRead", "MsgRead", over={"N": 3}, defs={"Bases": "{}", "Vals": "{}", "Tails": "{}", "Alphabet": ANY})
    items = "{Nil, Bool(TRUE), I(Small(5)), I(Small(40000)), U(Small(250)), Str(Pat(97, 3)), Bin(Pat(7, 5)), Time(<<0,0,0,1,0,0,0,5>>, 7), Ext(7, Pat(1, 2)), Arr(<<I(Small(1)), Str(Pat(97, 1))>>), Map(<<<<Str(Pat(97, 1)), Nil>>>>)}"
    beh += ctx.gen("MsgSession", "MsgSession", over={"Max": 2}, defs={"Items": items, "CutBack": "{0, 1, 2}", "Readers": '{"skip", "any", "nextnil", "i64", "str", "arrsize", "mapsize"}' if q else '{"skip", "any", "nextnil", "i64", "u8", "str", "bin", "arrsize", "mapsize", "bool", "time"}'})
    if not q:
        items = "{Nil, I(Small(40000)), Str(Pat(97, 3)), Arr(<<I(Small(1)), Str(Pat(97, 1))>>), Map(<<<<Str(Pat(97, 1)), Nil>>>>)}"
        beh += ctx.gen("MsgSession", "MsgSession", over={"Max": 3}, defs={"Items": items, "CutBack": "{0, 1}", "Readers": '{"skip", "any", "nextnil", "str", "arrsize"}'})
    heads = "{<<%s>>}" % ">>, <<".join(["221,255,255,255,255", "221,127,255,255,255", "223,255,255,255,255", "223,128,0,0,0", "223,127,255,255,255", "220,255,255", "222,255,255", "198,255,255,255,255", "198,255,255,255,251", "219,255,255,255,255", "219,255,255,255,250", "201,255,255,255,255,255", "201,255,255,255,250,1", "197,255,255", "221,0,15,255,255", "223,0,15,255,255", "159", "143"])
    beh += ctx.gen("MsgDeep", "MsgDeep", defs={"Heads": heads, "Chains": "{2, 1000, 20000}" if q else "{2, 1000, 20000, 200000}", "Depths": "{1, 2, 40, 999, 1000, 1001, 20000, 3000000}" if q else "{1, 2, 40, 1000, 9999, 10000, 10001, 20000, 1000000, 5000000}"})
    ctx.replay(b, beh, test="TestMsgPack", what="byte strings read")
    ctx.assumptions += ["inputs below 4 GB", "readers of one kind may refuse another kind's form: documented in MsgPack.tla"]
