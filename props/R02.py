from props.rxlib import *

TECHNIQUE = "TLA+ (TLC): RxFlux behaviours with explicit demand replayed into rx/flux and transform (host and guest builds); concurrent executions validated as traces"
NOTE = ("Every order of subscribing, attaching, requesting, delivering and ending up to the stated depth, with and without a demand callback, "
        "opting out, reactions from inside callbacks and transformations; observed: each value delivered, each amount of demand the producer sees. "
        "Concurrent requests are sampled and validated.")


def run(ctx):
    q = ctx.quick
    asks = st(NONE, OPT, ask(1, 1, 2), ask(2, 2), ask(1, 0), ask(3))
    for mode in ("async", "sync"):
        beh = fx(ctx, mode, 5, '{"proc"}', asks, acts=A_DEMAND, amounts="{1, 2}", maps="{TRUE, FALSE}" if not q else "{FALSE}", vals=3, lst=0)
        if q:
            beh += fx(ctx, mode, 4, '{"proc"}', asks, acts=A_DEMAND, amounts="{1, 2}", maps="{TRUE}", vals=3, lst=0)
        beh += fx(ctx, mode, 5 if q else 6, '{"slice","batch","m2f"}', asks, acts=A_DEMAND, amounts="{1, 2, 3}", lens="{0, 1, 2, 3, 5}", lst=0)
        beh += fx(ctx, mode, 4 if q else 5, '{"slice","batch","proc"}', st(NONE, OPT, ask(1, 1, 1, 1), ask(2)), rs=reacts(*DEMAND_REACTS), acts=A_DEMAND, amounts="{1, 3}", lens="{3}", lst=0)
        beh += fx(ctx, mode, 14, '{"proc","slice","batch","m2f"}', st(NONE, OPT, ask(1, 1, 1, 1, 1), ask(2, 3, 1), ask(1, 0, 1)), rs=reacts(*DEMAND_REACTS), acts=A_DEMAND,
                  amounts="{1, 2, 4}", lens="{6, 9}", vals=6, lst=0, sim=2000 if q else 40000)
        replay_flux(ctx, beh, mode, "behaviours")
    if not ctx.violations:
        conc(ctx, 2500 if q else 20000, kinds=("flux",))
    ctx.assumptions += ["one subscription per publisher at a time", "demand amounts are positive"]
