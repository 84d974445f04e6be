import json

TECHNIQUE = "TLA+ (TLC): text forms and their corruptions enumerated with expected results, clock histories replayed, random draws recorded and validated as traces"
NOTE = ("Every form of several UUIDs with every single-character change, insertion, deletion, truncation and swap; all pool/draw/failure programs to depth 4 (quick) or 5 (thorough); "
        "all clock histories to depth 8/9; concurrent draws are sampled under the race detector. The clock is simulated, sequence numbers repeat after 2^14 draws without the clock moving.")

B1 = "<<0,17,34,51,68,85,102,119,136,153,170,187,204,221,238,255>>"
B2 = "<<" + ",".join(["255"] * 16) + ">>"
B3 = "<<" + ",".join(["0"] * 16) + ">>"
B4 = "<<26,43,60,77,94,111,64,18,191,7,145,162,179,196,213,230>>"
B5 = "<<240,1,2,3,4,5,17,6,192,9,10,11,12,13,14,15>>"


def run(ctx):
    q = ctx.quick
    chars = "{0,32,45,47,48,57,58,64,65,70,71,96,97,102,103,123,125,255}" if q else "(0..127) \\cup {128, 160, 192, 254, 255}"
    beh = ctx.gen("Uuid", "Uuid", defs={"Bases": "{%s, %s}" % (B1, B4), "Chars": chars}, over={} if not q else {"Forms": '{"text","urn","braced","raw","URN"}'}, heap="10g")
    beh += ctx.gen("Uuid", "Uuid", defs={"Bases": "{%s}" % ",".join([B1, B2, B3, B4, B5]), "Chars": "{45,48}"})
    # every value of every byte
    pos = "{[%s EXCEPT ![p] = v] : p \\in 1..16, v \\in 0..255}" % B4
    beh += ctx.gen("Uuid", "Uuid", defs={"Bases": pos, "Chars": "{48}"}, over={"Muts": '{"none"}', "Forms": '{"mixed"}' if q else '{"mixed","raw","URN","braced"}'})
    b = ctx.build("uuid", mod="types/uuid")
    ctx.replay(b, beh, test="TestForms", what="texts")
    ck = ctx.gen("UuidClock", "UuidClock", over={"D": 8 if q else 9, "Seqs": "{16382}"})
    ck += ctx.gen("UuidClock", "UuidClock", over={"D": 5 if q else 6, "Free": "TRUE", "Seqs": "{5, 6, 16389}"})
    ck += ctx.gen("UuidClock", "UuidClock", over={"D": 4 if q else 5, "Free": "TRUE", "Seqs": "{0, 6, 16383}" , "Starts": '{"fresh"}'})
    ck += ctx.gen("UuidClock", "UuidClock", over={"D": 60}, sim=200 if q else 3000, depth=62)
    ctx.replay(b, ck, test="TestClock", what="clock histories")
    rd = ctx.gen("UuidRand", "UuidRand", over={"D": 4 if q else 5})
    tr = ctx.replay(b, rd, test="TestRand", collect=True, what="draw programs")
    ctx.cov["traces_validated_against_impl"] -= len(tr)
    n = 100 if q else 1000
    progs = [json.dumps([{"pool": k % 3 != 0, "seed": ctx.seed * 100000 + k}]) for k in range(n)]
    tr2 = ctx.replay(ctx.build("uuid", mod="types/uuid", race=True), progs, test="TestRandConc", collect=True, shards=4, what="concurrent draws")
    ctx.cov["traces_validated_against_impl"] -= len(tr2)
    if not ctx.violations:
        ctx.validate("UuidRandTrace", "UuidRandTrace", [x for _, x in tr if x] + [x for _, x in tr2])
    ctx.assumptions += ["clock readings have 100ns resolution", "enabling and disabling the pool does not run concurrently with draws (documented)"]
