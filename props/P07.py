from props.englib import *

TECHNIQUE = "TLA+ (TLC): state machine of one endpoint with the end of its connection (Engine); behaviours replayed into socket peers at the end of real connections and into module hosts"
NOTE = ("The connection of a socket peer ends by the other side closing it, by its own Close, by its context or by a frame that cannot be read, a module's instance by Close, after every behaviour of one stream up to a depth and at random points of behaviours with several; "
        "what was requested, demanded, cancelled or awaited afterwards included. Handlers of request-responses that still run are not interrupted. A module host is closed when it has answered every request of the module.")

D = {"Downs": '{"eof","close","ctx","bad"}', "Bad": "{}"}
H = {"Downs": '{"close"}', "Patient": "TRUE", "Bad": "{}"}
IN = '{"reqn","cancel","next","complete","last","error","hin"}'
OUT = '{"reqn","cancel","next","complete","last","error","ccancel","auto","await"}'
FEEDS = '{"create","error","slice","none"}'


def run(ctx):
    q = ctx.quick
    b = ctx.build("engine")

    def rep(lines, net, what):
        ctx.replay(b, lines, test="TestEngine", env={"ENDS": "netclient,netserver" if net else "host"}, what=what + (" (sockets)" if net else " (module host)"))
    for net, x in ((True, D), (False, H)):
        rep(ctx.gen("Engine", "EngineCover", over=dict(ANSWER, Acts=IN, **x)), net, "answered streams")
        rep(ctx.gen("Engine", "EngineCover", over=dict(ASK, **dict(x, Acts=OUT, Feeds=FEEDS))), net, "own streams")
        o = dict(MIX, **dict(x, Acts=IN[:-1] + "," + OUT[1:], Feeds=FEEDS, Ns="{1,2}", D="20" if q else "36"))
        rep(ctx.gen("Engine", "EngineSim", over=o, sim=600 if q else 12000, depth=23 if q else 39), net, "several streams")
        if not q:
            rep(ctx.gen("Engine", "Engine", over=dict(ANSWER, Acts='{"cancel","complete","hin"}', Pubs='{"create"}', Ns="{1}", **dict(x, D="5"))), net, "answered streams, all behaviours")
            rep(ctx.gen("Engine", "Engine", over=dict(ASK, **dict(x, Acts='{"complete","reqn","ccancel","await"}', Feeds='{"create"}', Ns="{1}", D="6"))), net, "own streams, all behaviours")
    race = ctx.build("engine", race=True)
    n = 1500 if q else 30000
    lines = [json.dumps([{"seed": ctx.seed * 1000003 + j, "end": ("netclient", "netserver", "host")[j % 3]}]) for j in range(n)]
    ctx.replay(race, lines, test="TestDown", what="callers busy while it ends")
