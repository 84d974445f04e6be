import json

TECHNIQUE = "TLA+ (TLC): every small flow program and completion order replayed into rx/flow; executions with concurrently finishing items validated as traces of FlowTrace"
NOTE = ("All programs of up to two steps and two awaited items (quick) or three and three (thorough), with every order of finishing them, also from "
        "inside steps, plus random programs of up to four steps, three awaits each and five items, the steps given one by one, together or on top of a list that another flow begins with too; concurrent completions are sampled under the race detector.")


def run(ctx):
    q = ctx.quick
    beh = ctx.gen("Flow", "Flow", over={"MaxItems": 1, "MaxAw": 2, "MaxSteps": 2, "MaxEv": 3})
    beh += ctx.gen("Flow", "Flow", over={"Pubs": '{"mono"}', "Items": '{"proc","now","lazy"}', "Ends": '{"run","final"}', "MaxItems": 2, "MaxAw": 2,
                                         "MaxSteps": 2 if q else 3, "MaxEv": 3, "Inside": "FALSE"}, heap="10g")
    if not q:
        beh += ctx.gen("Flow", "Flow", over={"MaxItems": 2, "MaxAw": 1, "MaxSteps": 2, "MaxEv": 4}, heap="10g")
    beh += ctx.gen("Flow", "Flow", over={"MaxItems": 5, "MaxAw": 3, "MaxSteps": 4, "MaxEv": 6, "Ends": '{"run","final"}'}, sim=4000 if q else 60000, depth=34)
    beh += ctx.gen("Flow", "Flow", over={"MaxItems": 4, "MaxAw": 3, "MaxSteps": 4, "MaxEv": 5}, sim=2000 if q else 30000, depth=30)
    ctx.replay(ctx.build("flow"), beh, test="TestFlow")
    if ctx.violations:
        return
    n = 4000 if q else 30000
    progs = [json.dumps([{"seed": ctx.seed * 1000000 + k}]) for k in range(n)]
    tr = ctx.replay(ctx.build("flow", race=True), progs, test="TestConc", collect=True, what="concurrent programs")
    ctx.cov["traces_validated_against_impl"] -= len(tr)
    if not ctx.violations:
        ctx.validate("FlowTrace", "FlowTrace", [x for _, x in tr])
    ctx.assumptions += ["an awaited publisher is subscribed by its creator (awaiting does not subscribe it)", "a flow is subscribed once"]
