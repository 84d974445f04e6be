from props.englib import *
from props.P01 import TECHNIQUE

NOTE = ("Cancels of either side at every state of one stream (before the handler has returned, before demand, after the end, twice, of unknown streams), behaviours up to a depth "
        "exhaustively for cancel-only alphabets, several streams by simulation, concurrent cancels. A cancel frame that crosses the end of the stream may or may not be sent.")

CAN = dict(InKinds='{"rs","rc"}', OutKinds='{"rs","rc"}', Bad="{}", Ns="{1}")


def run(ctx):
    q = ctx.quick
    e = Eng(ctx)
    e.cover(ANSWER, "answered streams", True)
    e.cover(ASK, "own streams", False)
    e.full(dict(CAN, Pubs='{"create"}', Acts='{"cancel","complete","error","hin"}' , D="4" if q else "6"), "cancels of answered streams", True)
    e.full(dict(ASK, **dict(CAN, Feeds='{"create"}', Acts='{"cancel","complete","error","ccancel"}', D="5" if q else "7")), "cancels of own streams", False)
    e.sims(dict(MIX, **dict(CAN, Feeds='{"create","slice"}', Pubs='{"create","slice"}', Ns="{1,2}")), 200 if q else 4000, 24 if q else 40, "cancels in several streams")
    if not q:
        e.sims(MIX, 4000, 40, "answered and own streams")
    e.conc(900 if q else 30000, 15000)
