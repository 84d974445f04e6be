from props.englib import *
from props.P01 import TECHNIQUE

NOTE = ("Demand in both directions of streams and channels: every transition of the state graph with small amounts, exhaustive short behaviours with large ones, demand arriving "
        "together with or right behind the request, several streams by simulation, concurrent requesters. Amounts above 2^31-1 do not fit a frame and are out of scope.")

DEM = dict(InKinds='{"rs","rc"}', OutKinds='{"rs","rc"}', Bad="{}")


def run(ctx):
    q = ctx.quick
    e = Eng(ctx)
    e.cover(dict(ANSWER, **DEM), "answered streams", True)
    e.cover(dict(ASK, **DEM), "own streams", False)
    big = "{1,7,16842755}" if q else "{1,2,7,1000,16842755}"  # 0x1010003: any narrower field loses some of it
    e.full(dict(DEM, Ns=big, Pubs='{"create","slice"}', Acts='{"reqn","hin"}', D="4" if q else "5"), "demand of answered streams", True)
    e.full(dict(ASK, **dict(DEM, Ns=big, Feeds='{"create","slice"}', Acts='{"reqn"}', D="5" if q else "6")), "demand of own streams", False)
    e.sims(dict(MIX, **dict(DEM, Ns="{1,2,3}", Acts='{"reqn","next","hin"}', Feeds='{"create","slice"}', Pubs='{"create","slice"}')), 200 if q else 4000, 24 if q else 40, "demand in several streams")
    if not q:
        e.sims(MIX, 4000, 40, "answered and own streams")
    e.conc(900 if q else 30000, 10000)
