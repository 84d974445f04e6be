import json

TECHNIQUE = "TLA+ (TLC): exhaustive behaviours replayed into proxy.Lookup, concurrent recorded traces validated against the specification"
NOTE = ("Every add/remove history up to depth 6 (quick) or 7 (thorough) over 3-4 stream numbers plus long random histories is replayed "
        "and the whole table compared after each step; concurrent executions are sampled, validated for linearizability by TLC and run "
        "under the race detector. Assumes a number is registered once at a time.")



def run(ctx):
    # 1. every sequence of adds and removes, exhaustively; a lookup of every number after every step
    beh = ctx.gen("Lookup", "Lookup_gen", over={"D": 6 if ctx.quick else 7, "Ids": "{1,2,3}"})
    if not ctx.quick:
        beh += ctx.gen("Lookup", "Lookup_gen", over={"D": 6, "Ids": "{1,2,3,4}", "MaxLive": 4})
    # longer random behaviours
    beh += ctx.gen("Lookup", "Lookup_sim", over={"D": 60, "Ids": "{1,2,3,4,5,6,7}", "MaxLive": 7},
                   sim=200 if ctx.quick else 4000, depth=62)
    b = ctx.build("lookup")
    ctx.replay(b, beh)
    # 2. concurrent executions, recorded and validated against the specification
    br = ctx.build("lookup", race=True)
    n = 120 if ctx.quick else 600
    progs = [json.dumps([{"threads": 3 + k % 2, "ops": 14, "own": 1 + k % 2, "seed": ctx.seed * 100000 + k}]) for k in range(n)]
    tr = ctx.replay(br, progs, test="TestRecord", what="concurrent programs", collect=True, shards=4)
    if ctx.violations:
        return
    ctx.validate("LookupTrace", "LookupTrace", [x for _, x in tr])
    # many operations without recording in between, under the race detector
    big = [json.dumps([{"threads": 8, "ops": 3000, "own": 4, "seed": ctx.seed * 99 + k}]) for k in range(4)]
    ctx.replay(br, big, test="TestRecord", what="race-detector programs", collect=True, shards=2)
    ctx.assumptions += ["a stream number is registered at most once at a time",
                        "concurrent executions are sampled (recorded real schedules), sequential histories are exhaustive to the stated depth"]
