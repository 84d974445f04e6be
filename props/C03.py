TECHNIQUE = "TLA+ (TLC): decision table of all converters and the text form and instant of times specified (Convert); every case replayed into the converters"
NOTE = ("All 13 converters x nil, zero, ordinary and unparsable values x with and without a given error; times over boundary years 0-9999, leap days, fractions and zone offsets (also with seconds, for which only the instant counts); "
        "malformed texts: every character replaced, every prefix, fields out of range. Years outside 0-9999 have no RFC 3339 text and are out of scope; Numeric is given values that fit the target type.")


def run(ctx):
    q = ctx.quick
    b = ctx.build("msgpack")
    beh = ctx.gen("Convert", "Convert")
    t = dict(Years="{0, 1, 4, 100, 400, 1582, 1899, 1900, 1969, 1970, 2000, 2024, 2038, 9999}", Months="{1, 2, 3, 12}", Days="{1, 28, 29, 31}",
             Clocks="{<<0,0,0>>, <<23,59,59>>, <<12,5,9>>}", Nanos="{0, 1, 500000000, 120000000, 999999999, 10}",
             Offsets="{0, 60, -60, 3600, 20700, -43200, 50400, 86340, -86340, 3208, -1, 61}")
    if not q:
        t.update(Years="{0, 1, 3, 4, 5, 99, 100, 101, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2038, 9998, 9999}", Months="1..12", Days="{1, 2, 15, 28, 29, 30, 31}")
    # at the edges of the range the zone must not carry the time out of it (UTC text of sub-minute zones)
    beh += ctx.gen("Convert", "Convert", over={"Phase": '"times"'}, defs=dict(t, Years=t["Years"].replace("{0, ", "{").replace(", 9999}", "}")))
    beh += ctx.gen("Convert", "Convert", over={"Phase": '"times"'}, defs=dict(t, Years="{0, 9999}", Offsets="{0, 60, -60, 20700, -43200}"))
    beh += ctx.gen("Convert", "Convert", over={"Phase": '"bad"'}, defs=dict(Years="{2023, 2024}", Months="{0, 2, 13}" if q else "0..19", Days="{0, 15, 29, 30, 32}", Clocks="{<<12,5,9>>, <<24,0,0>>, <<12,60,0>>, <<12,0,60>>}", Nanos="{0, 120000000}", Offsets="{0, -20700}"))
    ctx.replay(b, beh, test="TestConvert", what="conversions")
