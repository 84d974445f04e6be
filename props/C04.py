from props.C01 import LENS, INTS, LEAF
from props.C02 import bases, SET
TECHNIQUE = "TLA+ (TLC): which values every transform carries, in which bytes, and what it says of byte strings (Transform over MsgPack; Convert for times), with round trip checked on the specification; every case replayed into the transforms"
NOTE = ("All ready-made and generic transforms: boundary numbers of every width, strings and byte arrays around the length forms, lists, maps and nested values, handles of live objects, times over boundary years, fractions and offsets; "
        "payloads of every other kind, cut short or with a byte replaced. Bytes behind a value may be refused or ignored; values of types the dynamic writer does not list are out of scope.")


def run(ctx):
    q = ctx.quick
    b = ctx.build("msgpack")
    alph = "{0, 1, 127, 128, 255}" if q else "{0, 1, 31, 32, 127, 128, 129, 159, 160, 223, 224, 255}"
    vals = [
        "{I(b) : b \\in %s} \\cup {U(b) : b \\in %s}" % (INTS % (alph, alph), INTS % (alph, alph)),
        "{Nil, Bool(TRUE), Bool(FALSE)}",
        "{F32(<<a, b, 0, d>>) : a \\in {0, 63, 128, 191}, b \\in {0, 128}, d \\in {0, 255}} \\cup {F64(<<a, b>> \\o Rep(e, 6)) : a \\in {0, 63, 128, 191}, b \\in {0, 239}, e \\in {0, 255}}",
        "{Str(Pat(s, n)) : s \\in {0, 97}, n \\in %s} \\cup {Bin(Pat(130, n)) : n \\in %s}" % (LENS, LENS),
        "{Arr([j \\in 1..n |-> Str(Pat(j, j))]) : n \\in {0, 1, 2, 17}}",
        "{Arr([j \\in 1..n |-> I(Rep(255, 7) \\o <<100 + j>>)]) : n \\in {1, 3, 16}}",
        "{Map([j \\in 1..n |-> <<Str(Pat(97 + j, m)), I(Small(j * 40))>>]) : n \\in {0, 1, 2, 15, 16}, m \\in {1, 32}}",
        "{Arr(<<x, y>>) : x \\in %s, y \\in %s}" % (LEAF, LEAF)]
    leaves = " \\cup ".join("(%s)" % x for x in vals[:4])
    beh = []
    for v in [leaves] + vals[4:]:
        beh += ctx.gen("Transform", "Transform", defs={"Values": v})
    base = " \\cup ".join("(%s)" % f for f in bases(q))
    wires = ("LET Bas == {w \\in %s : Size(w) < 300} Put(x, k, b) == Take(x, k - 1) \\o U8(b) \\o Drop(x, k) Mn(x, y) == IF x < y THEN x ELSE y IN "
             "Bas \\cup {w \\o U8(1) : w \\in Bas} \\cup UNION {{Take(w, n) : n \\in 0..Mn(12, Size(w) - 1)} : w \\in Bas} \\cup UNION {{Put(w, k, b) : k \\in 1..Mn(%d, Size(w)), b \\in %s} : w \\in Bas}"
             % (base, 2 if q else 4, SET(map(str, (0, 1, 129, 145, 161, 192, 196, 203, 206, 210, 217, 255) if q else range(0, 256, 1)))))
    beh += ctx.gen("Transform", "Transform", over={"Phase": '"say"'}, defs={"Wires": wires})
    beh += ctx.gen("Transform", "Transform", over={"Phase": '"texts"'}, defs={
        "Texts": "{[s |-> Bs(<<48 + n>>), ok |-> TRUE, n |-> n] : n \\in 0..9} \\cup {[s |-> Bs(<<45, 48 + n, 48>>), ok |-> TRUE, n |-> 0 - 10 * n] : n \\in 1..9} \\cup {[s |-> s, ok |-> FALSE, n |-> 0] : s \\in {<<>>, Bs(<<120>>), Bs(<<49, 32>>), Bs(<<45>>), Pat(49, 3) \\o U8(46)}}",
        "Handles": "{1, 2, 200}"})
    t = dict(Years="{1, 4, 100, 400, 1582, 1899, 1900, 1969, 1970, 2000, 2024, 2038}", Months="{1, 2, 12}", Days="{1, 28, 29, 31}",
             Clocks="{<<0,0,0>>, <<23,59,59>>}", Nanos="{0, 1, 500000000, 999999999, 10}", Offsets="{0, 60, -60, 20700, -43200, 50400, 86340, -86340, 3208, -1, 61}")
    if not q:
        t.update(Months="1..12", Days="{1, 2, 15, 28, 29, 30, 31}", Clocks="{<<0,0,0>>, <<23,59,59>>, <<12,5,9>>}")
    beh += ctx.gen("Convert", "Convert", over={"Phase": '"times"'}, defs=t)
    beh += ctx.gen("Convert", "Convert", over={"Phase": '"times"'}, defs=dict(t, Years="{0, 9999}", Offsets="{0, 60, -60, 20700, -43200}"))
    beh += ctx.gen("Convert", "Convert", over={"Phase": '"bad"'}, defs=dict(Years="{2023, 2024}", Months="{0, 2, 13}", Days="{0, 15, 29, 30, 32}", Clocks="{<<12,5,9>>, <<24,0,0>>, <<12,60,0>>}", Nanos="{0, 120000000}", Offsets="{0, -20700}"))
    ctx.replay(b, beh, test="TestTransform", what="payload transforms")
    ctx.assumptions += ["times of the years 0 to 9999"]
