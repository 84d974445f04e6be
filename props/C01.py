TECHNIQUE = "TLA+ (TLC): every value's encoding specified (MsgPack, MsgWrite), round trip and prefix-freeness checked on the specification; values, bytes and sizes replayed into every writer, maker and matching reader"
NOTE = ("Numbers over all boundary patterns of all widths, lengths of strings, byte arrays, lists and maps around every boundary of the length forms, times around the boundaries of the three timestamp forms, nested lists and maps. "
        "Each through every typed, nillable and dynamic writer, the ...ToBytes makers and codecs, into buffers of the exact size, longer ones and every shorter one (long values: the first 24 and last 3 cuts). Maps of several entries are compared in any order.")
SET = lambda l: "{" + ", ".join(l) + "}"
ALPH = "{0, 1, 31, 32, 127, 128, 129, 159, 160, 223, 224, 255}"
INTS = "{Rep(p, 8 - m) \\o <<a>> \\o (IF m < 2 THEN <<>> ELSE Rep(q, m - 2) \\o <<z>>) : p \\in {0, 255}, m \\in 1..8, a \\in %s, z \\in %s, q \\in {0, 255}}"
LENS = "{0, 1, 2, 15, 16, 31, 32, 33, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000}"
# seconds around the boundaries of the timestamp forms; the zero time
SECS = "{Rep(0, 8), Small(1), <<0,0,0,0,127,255,255,255>>, <<0,0,0,0,128,0,0,0>>, <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>, <<0,0,0,1,0,0,0,5>>, <<0,0,0,3,255,255,255,255>>, <<0,0,0,4,0,0,0,0>>, <<0,0,0,58,255,244,65,127>>, Rep(255, 8), <<255,255,255,255,128,0,0,0>>, <<255,255,255,241,136,110,9,0>>}"
NSS = "{0, 1, 63, 64, 16384, 4194304, 500000000, 999999999}"
LEAF = "{Nil, Bool(TRUE), I(Small(5)), I(Rep(255, 7) \\o <<%s>>), U(Small(200)), U(Rep(255, 8)), F64(<<63,240,0,0,0,0,0,1>>), Str(Pat(97, 3)), Str(<<>>), Bin(Pat(7, 40)), Time(<<0,0,0,1,0,0,0,5>>, 7)}" % "200"


def values(q):
    fam = [
        "{Nil, Bool(TRUE), Bool(FALSE)}",
        "{I(b) : b \\in %s} \\cup {U(b) : b \\in %s}" % (INTS % (ALPH, ALPH), INTS % (ALPH, ALPH)),
        "{F32(<<a, b, c, d>>) : a \\in {0, 63, 127, 128, 191, 255}, b \\in {0, 128, 192, 255}, c \\in {0, 1}, d \\in {0, 255}} \\ {F32(<<a, b, c, d>>) : a \\in {127, 255}, b \\in {128}, c \\in {0, 1}, d \\in {0, 255}}",
        "{F64(<<a, b, c, d>> \\o Rep(e, 4)) : a \\in {0, 63, 64, 127, 128, 255}, b \\in {0, 239, 240, 248, 255}, c \\in {0, 1}, d \\in {0, 255}, e \\in {0, 255}}",
        "{Str(Pat(s, n)) : s \\in {0, 97, 200}, n \\in %s}" % LENS,
        "{Bin(Pat(s, n)) : s \\in {0, 130}, n \\in %s}" % LENS,
        "{Time(b, ns) : b \\in %s, ns \\in %s}" % (SECS, NSS),
        "{Arr([j \\in 1..n |-> x]) : n \\in 0..3, x \\in %s}" % LEAF,
        "{Arr([j \\in 1..n |-> I(Small(j * 37 - 37))]) : n \\in {14, 15, 16, 17, 40%s}} \\cup {Arr([j \\in 1..n |-> U(Small(j * 37))]) : n \\in {15, 16}}" % (", 200" if not q else ""),
        "{Arr([j \\in 1..n |-> I(Rep(255, 7) \\o <<100 + j>>)]) : n \\in {1, 3, 16}}",
        "{Arr([j \\in 1..n |-> %s]) : n \\in {1, 2, 16}}" % "Bool(j % 2 = 0)",
        "{Arr([j \\in 1..n |-> Str(Pat(j, j))]) : n \\in {1, 2, 17, 33}}",
        "{Arr([j \\in 1..n |-> Time(Small(j), j - 1)]) : n \\in {1, 2, 16}}",
        "{Arr(<<x, y>>) : x \\in %s, y \\in %s}" % (LEAF, LEAF),
        "{Map(<<<<x, y>>>>) : x \\in %s, y \\in %s}" % (LEAF.replace(", Bin(Pat(7, 40))", ""), LEAF),
        "{[k |-> x, b |-> y] : x \\in {\"asize\", \"msize\"}, y \\in {Small(n) : n \\in {0, 1, 15, 16, 17, 31, 32, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1000000}} \\cup {<<0,0,0,0,127,255,255,255>>, <<0,0,0,0,128,0,0,0>>, <<0,0,0,0,255,255,255,255>>}}",
        "{[k |-> \"rep\", n |-> n, v |-> x] : n \\in {255, 65535, 65536}, x \\in {Nil, Bool(TRUE), I(Small(1))}}",
        "{Map([j \\in 1..n |-> <<Str(Pat(97 + j, m)), I(Small(j * 40))>>]) : n \\in {2, 3, 15, 16, 17}, m \\in {1, 32}}",
        "{Map([j \\in 1..n |-> <<I(Small(j * 9)), Str(Pat(j, 2))>>]) : n \\in {2, 13, 16}} \\cup {Map([j \\in 1..n |-> <<I(Small(j * 700)), Nil>>]) : n \\in {2, 16}}",
        "{Map([j \\in 1..n |-> <<U(Small(j * 15)), Arr(<<Bool(TRUE)>>)>>]) : n \\in {2, 16}} \\cup {Map([j \\in 1..n |-> <<Str(Pat(j, 3)), Str(Pat(j, 5))>>]) : n \\in {0, 1, 2, 16}}",
        "LET L == {Nil, I(Small(300)), Str(Pat(97, 2))} L1 == {Arr(<<x, y>>) : x \\in L, y \\in L} \\cup {Map(<<<<Str(Pat(97, 1)), x>>>>) : x \\in L} \\cup {Arr(<<>>), Map(<<>>)} IN "
        "{Arr(<<x, y>>) : x \\in L1, y \\in L1 \\cup L} \\cup {Map(<<<<I(Small(1)), x>>, <<I(Small(2)), y>>>>) : x \\in L1, y \\in L} \\cup {Arr(<<Arr(<<x>>), Map(<<<<Nil, x>>>>)>>) : x \\in L1}",
    ]
    if not q:
        fam += [
            "{I(Rep(p, 6) \\o <<a, b>>) : p \\in {0, 255}, a \\in 0..255, b \\in {0, 1, 31, 32, 127, 128, 223, 224, 254, 255}} \\cup {U(Rep(0, 6) \\o <<a, b>>) : a \\in 0..255, b \\in {0, 1, 127, 128, 255}}",
            "{I(Rep(p, 7) \\o <<a>>) : p \\in {0, 255}, a \\in 0..255} \\cup {U(Rep(0, 7) \\o <<a>>) : a \\in 0..255}",
            "{Str(Pat(3, n)) : n \\in 0..300} \\cup {Bin(Pat(3, n)) : n \\in 0..300}",
            "{I(<<a, b>> \\o Rep(p, 2) \\o <<c>> \\o Rep(q, 2) \\o <<d>>) : a \\in {0, 127, 128, 255}, b \\in {0, 255}, p \\in {0, 255}, c \\in {0, 127, 128, 255}, q \\in {0, 255}, d \\in {0, 1, 255}}",
            "{Time(Rep(0, 4) \\o <<a, b, 0, c>>, ns) : a \\in {0, 127, 128, 255}, b \\in {0, 255}, c \\in {0, 255}, ns \\in {0, 1, 3, 4, 255, 256, 65535, 65536, 262143, 262144, 16777216, 999999998}}",
            "{Arr([j \\in 1..n |-> Nil]) : n \\in {300, 1000}}",
            "LET L == %s IN {Arr(<<Arr(<<x>>), Arr(<<y, x>>), Map(<<<<Str(Pat(98, 1)), Arr(<<y>>)>>>>)>>) : x \\in L, y \\in L}" % LEAF,
        ]
    return fam


def run(ctx):
    q = ctx.quick
    b = ctx.build("msgpack")
    beh = []
    f = values(q)
    for g in [f[:6], f[6:]]:
        beh += ctx.gen("MsgWrite", "MsgWrite", defs={"Values": " \\cup ".join("(%s)" % x for x in g)})
    items = "{Nil, Bool(TRUE), I(Small(5)), I(Small(40000)), U(Small(250)), U(Rep(200, 8)), F32(<<63,128,0,0>>), F64(<<63,240,0,0,0,0,0,1>>), Str(Pat(97, 3)), Str(Pat(97, 33)), Bin(Pat(7, 5)), Bin(<<>>), Time(<<0,0,0,1,0,0,0,5>>, 7), Arr(<<I(Small(1)), Str(Pat(97, 1))>>), Map(<<<<Str(Pat(97, 1)), Nil>>>>)}"
    caps = "{0, 1, 2, 3, 4, 5, 6, 8, 9, 10}"
    beh += ctx.gen("MsgSession", "MsgSession", over={"Mode": '"write"', "Max": 2 if q else 3}, defs={"Items": items, "Caps": caps})
    ctx.replay(b, beh, test="TestMsgPack", what="values written")
    ctx.assumptions += ["signed writers use the signed number forms, as matching readers expect", "values of types the dynamic writer does not list are out of scope"]
