import json

TECHNIQUE = "TLA+ (TLC): all put/remove/get histories replayed into LiveInstances; recorded concurrent executions checked for linearizability"
NOTE = ("All histories up to depth 6 (quick) or 7 (thorough) with 3-4 instances over four instance types (including an empty type), stale and unknown "
        "handles after every step and with garbage collection in between; concurrent executions are sampled under the race detector (which also checks pointer use).")


def run(ctx):
    q = ctx.quick
    beh = ctx.gen("LiveInstances", "LiveInstances", over={"D": 5 if q else 6, "MaxPuts": 3 if q else 4})
    beh += ctx.gen("LiveInstances", "LiveInstances", over={"D": 40, "MaxPuts": 12}, sim=150 if q else 3000, depth=42)
    ctx.replay(ctx.build("small"), beh, test="TestLive")
    ctx.replay(ctx.build("small", race=True), beh[::29], test="TestLive", what="behaviours with pointer checks")
    n = 200 if q else 1500
    progs = [json.dumps([{"threads": 3 + k % 2, "ops": 10, "seed": ctx.seed * 100000 + k}]) for k in range(n)]
    tr = ctx.replay(ctx.build("small", race=True), progs, test="TestLiveConc", collect=True, shards=4, what="concurrent programs")
    ctx.cov["traces_validated_against_impl"] -= len(tr)
    if not ctx.violations:
        ctx.validate("LiveTrace", "LiveTrace", [x for _, x in tr])
    ctx.assumptions += ["concurrent executions are sampled"]
