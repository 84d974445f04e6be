from props.rxlib import *

TECHNIQUE = "TLA+ (TLC): behaviours with blocked callers (RxFlux, RxMono) replayed into rx/flux, rx/mono and transform on the host build"
NOTE = ("Every order of blocking, delivering and ending up to the stated depth over every publisher kind, mapped or not; whether and with what the "
        "blocked caller returned is observed after every step at quiescence (testing/synctest), so a hang shows as a missing return.")


def run(ctx):
    q = ctx.quick
    asks = st(NONE, ask(1, 1, 2), OPT)
    beh = fx(ctx, "async", 4 if q else 5, ALLSRC, asks, acts=A_BLOCK, lens="{0, 2}")
    beh += fx(ctx, "async", 4 if q else 5, ALLSRC, st(NONE, ask(1, 1, 2)), acts=A_BLOCK2, lens="{0, 2}", lst=0)
    beh += fx(ctx, "async", 4, '{"proc","slice"}', st(NONE), acts=A_BLOCK, rs=reacts(*END_REACTS), lst=1)
    beh += fx(ctx, "async", 10, ALLSRC, st(NONE, ask(1, 1, 1, 1, 1), ask(2, 1, 1, 1)), acts='{"block","attach","push","complete","error","cancel","inner","notify","request"}',
              lens="{0, 1, 3, 4}", vals=4, lst=2, rs=reacts(*END_REACTS), sim=1500 if q else 30000)
    replay_flux(ctx, beh, "async", "behaviours")
    beh = mono(ctx, 5 if q else 6, lst=1)
    beh += mono(ctx, 9, lst=2, sim=800 if q else 20000)
    ctx.replay(ctx.build("rx"), beh, test="TestMono", what="mono behaviours")
    ctx.assumptions += ["a publisher is blocked on by one caller, which subscribes it, or after it has ended",
                        "blocking is not available in guest builds"]
