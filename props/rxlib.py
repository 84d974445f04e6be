"""Generation and replay shared by R01, R02 and R03 (spec RxFlux, RxMono, RxTrace)."""
import json

NONE = '[k |-> "none", l |-> <<>>]'
OPT = '[k |-> "optout", l |-> <<>>]'
ALLSRC = '{"proc","slice","batch","m2f","err","sync","synerr"}'


def ask(*a):
    return '[k |-> "ask", l |-> <<%s>>]' % ", ".join("%d" % x for x in a)


def st(*xs):
    return "{" + ", ".join(xs) + "}"


def react(on, k, do, n=1):
    return '[on |-> "%s", k |-> %d, do |-> "%s", n |-> %d]' % (on, k, do, n)


NOREACT = "{{}}"


def reacts(*rs):
    """every reaction alone, and none"""
    return st("{}", *["{%s}" % r for r in rs])


END_REACTS = [react(on, k, do) for on, k in (("next", 1), ("next", 2), ("complete", 1), ("error", 1), ("finally", 1), ("notify", 1))
              for do in ("cancel", "complete", "error", "push", "notify", "request")]
DEMAND_REACTS = [react("next", k, "request", n) for k in (1, 2) for n in (1, 2)] + [react("next", 1, "cancel"), react("next", 2, "cancel"),
                 react("complete", 1, "request"), react("finally", 1, "request")]
PAIRS = ["{%s, %s}" % (a, b) for a in (react("next", 1, "request"), react("next", 1, "notify"), react("next", 1, "push"))
         for b in (react("next", 2, "cancel"), react("next", 2, "complete"), react("finally", 1, "notify"), react("next", 2, "error"))]

A_ALL = '{"subscribe","attach","push","complete","error","request","cancel","notify","inner"}'
A_DEMAND = '{"subscribe","attach","push","complete","request","cancel","inner"}'
A_BLOCK = '{"block","attach","push","complete","error","cancel","inner","notify"}'
A_BLOCK2 = '{"subscribe","block","push","complete","error","cancel","inner"}'


def fx(ctx, mode, D, srcs, asks, rs=NOREACT, acts=A_ALL, maps="{TRUE, FALSE}", amounts="{1}", lens="{2}", vals=2, lst=1, sim=None):
    beh = ctx.gen("RxFlux", "RxFlux",
                  over={"D": D, "Maps": maps, "Amounts": amounts, "SliceLens": lens, "MaxVals": vals, "MaxLst": lst,
                        "Mode": '"%s"' % mode, "Srcs": srcs, "Acts": acts},
                  defs={"AskSet": asks, "ReactSet": rs}, sim=sim, depth=D + 2 if sim else None, heap="8g")
    return beh


def replay_flux(ctx, beh, mode, what):
    b = ctx.build("rx", tags="wasi" if mode == "sync" else None)
    ctx.replay(b, beh, test="TestFlux", what=what + " (%s)" % ("guest build" if mode == "sync" else "host build"))


def mono(ctx, D, rs=NOREACT, acts=None, srcs=None, sim=None, lst=2, maps="{TRUE, FALSE}"):
    over = {"D": D, "MaxLst": lst, "Maps": maps}
    if acts:
        over["Acts"] = acts
    if srcs:
        over["Srcs"] = srcs
    return ctx.gen("RxMono", "RxMono", over=over, defs={"ReactSet": rs}, sim=sim, depth=D + 2 if sim else None, heap="8g")


def conc(ctx, n, kinds=("flux", "flux", "mono")):
    b = ctx.build("rx", race=True)
    progs = [json.dumps([{"kind": kinds[k % len(kinds)], "seed": ctx.seed * 1000000 + k}]) for k in range(n)]
    tr = ctx.replay(b, progs, test="TestConc", collect=True, shards=4, what="concurrent programs")
    ctx.cov["traces_validated_against_impl"] -= len(tr)   # counted when validated
    if not ctx.violations:
        ctx.validate("RxTrace", "RxTrace", [x for _, x in tr])
