import json

TECHNIQUE = "TLA+ (TLC): state machine of a module host and its Close calls; all short behaviours and every transition replayed on the real host, concurrent programs recorded and checked against a trace specification"
NOTE = ("Up to three requests of every kind, valid, unknown, with short metadata or undecodable, ended in every way and order around up to two calls of Close; a request that arrives "
        "while Close waits is under way too, one that arrives after Close has returned is dropped. Fire-and-forget requests have no answer and are not waited for.")


def run(ctx):
    q = ctx.quick
    b = ctx.build("engine")

    def rep(cfg, over, what, **k):
        g = ctx.gen("HostClose", cfg, over=over, **k)
        ctx.replay(b, g, test="TestClose", what=what)
    if q:
        rep("HostCloseCover", {"Kinds": '{"rr","rc"}', "Bads": '{"op"}'}, "closings with two requests")
        rep("HostCloseCover", {"Rs": '{"r1"}'}, "closings with one request")
        rep("HostClose", {"Rs": '{"r1"}', "D": "5", "Bads": "{}", "Kinds": '{"rc"}'}, "host closings")
        rep("HostClose", {"D": "12", "Rs": '{"r1","r2","r3"}'}, "long host closings", sim=400, depth=14)
    else:
        rep("HostCloseCover", {}, "host closings")
        rep("HostCloseCover", {"Rs": '{"r1","r2","r3"}', "Cs": "{1}", "Bads": '{"op"}', "Kinds": '{"rr","rs","rc"}'}, "host closings")
        rep("HostClose", {"D": "5", "Bads": '{"op"}', "Kinds": '{"rr","rc"}'}, "host closings")
        rep("HostClose", {"D": "20", "Rs": '{"r1","r2","r3"}', "Cs": "{1,2,3}"}, "long host closings", sim=20000, depth=22)
    race = ctx.build("engine", race=True)
    n = 1500 if q else 60000
    for k in range(0, n, 6000):
        lines = [json.dumps([{"seed": ctx.seed * 1000003 + k + j}]) for j in range(min(6000, n - k))]
        tr = ctx.replay(race, lines, test="TestCloseConc", collect=True, what="concurrent closings")
        ctx.cov["traces_validated_against_impl"] -= len(tr)
        if ctx.violations:
            return
        ctx.validate("HostCloseTrace", "HostCloseTrace", [x for _, l in tr for x in l])
