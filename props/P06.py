import json

TECHNIQUE = "TLA+ (TLC): number allocation model-checked at small widths; complete real loops (2^30 numbers, compressed) and concurrent executions around start and wrap-around validated as traces"
NOTE = ("The code really hands out every number of a whole loop and beyond (one loop quick, three thorough) on both sides and the recorded sequence is validated "
        "by TLC against the specification; concurrent callers are sampled at the start and across the wrap-around.")


def run(ctx):
    q = ctx.quick
    for side in ("client", "server"):
        ctx.tlc("StreamId", "StreamId", over={"Side": '"%s"' % side, "Top": 7 if q else 15, "K": 4 if q else 6, "Procs": "{p1, p2, p3}" if q else "{p1, p2}"})
    b = ctx.build("small")
    L = 1 << 30
    jobs = []
    for side in ("client", "server"):
        n = L if side == "client" else L - 1
        jobs.append([{"side": side, "skip": 100, "threads": 0, "ops": 0, "seed": 0}])
        jobs.append([{"side": side, "skip": (n if q else 3 * n) + 1000, "threads": 0, "ops": 0, "seed": 0}])
        for k in range(2 if q else 3):   # across the wrap-around
            jobs.append([{"side": side, "skip": n - 60, "threads": 4, "ops": 40, "seed": ctx.seed * 100 + k}])
    tr = ctx.replay(b, [json.dumps(j) for j in jobs], test="TestIDs", collect=True, shards=8, what="complete loops", limit=800)
    ctx.cov["traces_validated_against_impl"] -= len(tr)
    br = ctx.build("small", race=True)
    n = 200 if q else 2000
    progs = [json.dumps([{"side": ("client", "server")[k % 2], "skip": k % 3, "threads": 2 + k % 4, "ops": 20, "seed": ctx.seed * 100000 + k}]) for k in range(n)]
    tr2 = ctx.replay(br, progs, test="TestIDs", collect=True, shards=4, what="concurrent programs")
    ctx.cov["traces_validated_against_impl"] -= len(tr2)
    if not ctx.violations:
        ctx.validate("StreamIdTrace", "StreamIdTrace", [x for _, x in tr])
        ctx.validate("StreamIdTrace", "StreamIdTrace", [x for _, x in tr2])
    ctx.assumptions += ["fewer than 2^63 numbers are drawn in the life of a process"]
