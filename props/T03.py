import json

TECHNIQUE = "TLA+ (TLC): all put/read/load/dispose histories replayed into buffer.Unbounded; recorded executions with many producers validated as traces"
NOTE = ("All histories up to depth 8 (quick) or 10 (thorough), each followed by draining the queue, plus long random ones; executions with up to four producers, "
        "two disposers and a consumer are sampled under the race detector and validated. One consumer, which loads after every read.")


def run(ctx):
    q = ctx.quick
    beh = ctx.gen("Unbounded", "Unbounded", over={"D": 8 if q else 9})
    beh += ctx.gen("Unbounded", "Unbounded", over={"D": 60, "MaxPut": 40}, sim=500 if q else 8000, depth=62)
    ctx.replay(ctx.build("small"), beh, test="TestQueue")
    n = 3000 if q else 20000
    progs = [json.dumps([{"seed": ctx.seed * 1000000 + k}]) for k in range(n)]
    tr = ctx.replay(ctx.build("small", race=True), progs, test="TestQueueConc", collect=True, what="concurrent programs")
    ctx.cov["traces_validated_against_impl"] -= len(tr)
    if not ctx.violations:
        ctx.validate("UnboundedTrace", "UnboundedTrace", [x for _, x in tr])
    ctx.assumptions += ["one consumer, which loads after every read"]
