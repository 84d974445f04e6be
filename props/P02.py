from props.englib import *
from props.P01 import TECHNIQUE

NOTE = ("One request of the endpoint's own: every transition of the state graph (all kinds, all response frames, in every phase, frames for unknown streams between any "
        "two steps), several requests by simulation; frames one at a time and in bursts.")


def run(ctx):
    q = ctx.quick
    e = Eng(ctx)
    e.cover(ASK, "own requests", False)
    e.full(dict(ASK, Outs='{"o1","o2"}', OutKinds='{"rr","rs"}', Ns="{1}", Feeds='{"none"}', Acts='{"next","last","error","complete","unknown"}', D="4" if q else "5"), "two own requests", False)
    e.sims(dict(ASK, Outs='{"o1","o2","o3"}'), 300 if q else 4000, 24 if q else 40, "several own requests", False)
    e.sims(MIX, 200 if q else 4000, 24 if q else 40, "answered and own streams")
    if not q:
        e.full(dict(ASK, D="5"), "own requests", False)
    e.conc(900 if q else 30000, 5000)
