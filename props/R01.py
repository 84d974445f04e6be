from props.rxlib import *

TECHNIQUE = "TLA+ (TLC): RxFlux/RxMono behaviours replayed into rx/flux, rx/mono and transform (host and guest builds); concurrent executions validated as traces of RxTrace"
NOTE = ("All interleavings of producer, subscriber and listener calls, including calls from inside callbacks, up to the stated depth over every "
        "publisher kind, plus long random ones; concurrent executions are sampled. Assumes one subscription per publisher at a time and that a "
        "producer signals values one at a time.")


def run(ctx):
    q = ctx.quick
    for mode in ("async", "sync"):
        beh = fx(ctx, mode, 4 if q else 5, ALLSRC, st(NONE, ask(1, 1, 2), ask(-1), ask(1, -1)), lst=2)
        beh += fx(ctx, mode, 4, '{"proc"}', st(NONE, ask(1, 1)), rs=reacts(*END_REACTS), acts='{"subscribe","push","complete","error","cancel","notify"}')
        beh += fx(ctx, mode, 3 if q else 4, '{"slice","batch","m2f","sync","synerr","err"}', st(NONE, ask(1, 1)), rs=reacts(*END_REACTS), lst=1)
        if not q:
            beh += fx(ctx, mode, 5, '{"proc"}', st(NONE), rs=st(*PAIRS), acts='{"subscribe","push","complete","error","cancel","notify"}')
        beh += fx(ctx, mode, 12, ALLSRC, st(NONE, ask(1, 1, 2), ask(2, 1, 1, 1), OPT, ask(1, -1)), rs=reacts(*(END_REACTS + DEMAND_REACTS)),
                  amounts="{1, 2}", lens="{0, 1, 3}", vals=4, lst=3, sim=1500 if q else 30000)
        replay_flux(ctx, beh, mode, "flux behaviours")
    rs = reacts(*[react(on, 1, do) for on in ("success", "error", "finally", "notify") for do in ("success", "error", "notify")])
    acts = '{"subscribe","success","error","sinksuccess","sinkerror","cancel","inext","icomplete","ierror","notify"}'
    beh = mono(ctx, 4 if q else 5, rs=rs, acts=acts)
    beh += mono(ctx, 9, rs=rs, acts=acts, lst=3, sim=1000 if q else 20000)
    ctx.replay(ctx.build("rx"), beh, test="TestMono", what="mono behaviours (host build)")
    ctx.replay(ctx.build("rx", tags="wasi"), beh, test="TestMono", what="mono behaviours (guest build)")
    if not ctx.violations:
        conc(ctx, 3000 if q else 20000)
    ctx.assumptions += ["one subscription per publisher at a time", "a producer hands over values one at a time",
                        "values handed to a multi-value processor before it has a subscriber are not kept"]
