TECHNIQUE = "TLA+ (TLC): state machine of calls, the module's requests during them and what these work for (Contexts); every transition and random long behaviours replayed on real module hosts, socket peers and a guest"
NOTE = ("Values, deadline and cancellation of the contexts are observed in handlers of all four kinds after every step, for calls of all four kinds, open and ended in every way, nested requests of the module, two instances "
        "with the same stream numbers and numbers that resemble those in use.")

PEER = {"Peer": "TRUE", "Calls": "{}"}


def run(ctx):
    q = ctx.quick
    b = ctx.build("engine")

    def rep(lines, ends, what, guest=False):
        x = ctx.build("engine", tags="wasi") if guest else b
        for env in ({}, {"BURST": "1"}):
            ctx.replay(x, lines, test="TestContexts", env=dict(env, ENDS=ends), what=what + (", arriving in bursts" if env else ""))
    rep(ctx.gen("Contexts", "ContextsCover", over={"CForms": '{"rs","rc"}', "AForms": '{"rr","rs"}'} if q else {}), "host", "requests during a call")
    rep(ctx.gen("Contexts", "ContextsCover", over={"Asks": "{1}", "Insts": "{1,2}"}), "host", "requests during a call of the same or another instance")
    if not q:
        rep(ctx.gen("Contexts", "ContextsCover", over={"CForms": '{"rs"}', "AForms": '{"rc","fnf"}', "Insts": "{1,2}"}), "host", "nested requests in two instances")
        rep(ctx.gen("Contexts", "ContextsCover", over={"Calls": "{1,2}", "CForms": '{"rr","rs"}', "AForms": '{"rs"}'}), "host", "requests during two calls")
    D = 14 if q else 24
    big = {"Calls": "{1,2,3}", "Asks": "{1,2,3,4}", "Insts": "{1,2}", "D": str(D)}
    rep(ctx.gen("Contexts", "Contexts", over=big, sim=500 if q else 20000, depth=D + 2), "host", "several calls and requests")
    rep(ctx.gen("Contexts", "ContextsCover", over=dict(PEER, Insts="{1}" if q else "{1,2}")), "client,server", "requests of a peer")
    rep(ctx.gen("Contexts", "ContextsCover", over=dict(PEER, Insts="{1}", Mortal="FALSE")), "guest", "requests of a host", guest=True)
