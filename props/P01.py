from props.englib import *

TECHNIQUE = "TLA+ (TLC): state machine of an endpoint; every transition of its state graph, every short behaviour and random long behaviours over several streams replayed on client, server, module host and guest; concurrent programs recorded and checked against a trace specification"
NOTE = ("One stream: every transition of the state graph of answering (kinds, handlers that return publishers, errors or ready sequences, before and after the "
        "handler has returned), two or more streams by simulation; frames one at a time and in bursts. Guests have no threads: there only arrival order varies.")


def run(ctx):
    q = ctx.quick
    e = Eng(ctx)
    e.cover(ANSWER, "answered streams", True)
    e.full({"Ins": '{"i1","i2"}', "InKinds": '{"rr","fnf"}', "Ns": "{1}", "Acts": '{"cancel","next","complete","error","big"}', "D": "4" if q else "5"}, "two answered requests", True)
    e.sims(dict(ANSWER, Ins='{"i1","i2","i3"}'), 250 if q else 4000, 24 if q else 40, "several answered streams")
    e.sims(MIX, 200 if q else 4000, 24 if q else 40, "answered and own streams")
    if not q:
        e.full(dict(ANSWER, D="4"), "answered streams", True)
        e.full(dict(ANSWER, D="5", Ns="{1}", InKinds='{"rs","rc"}', Pubs='{"create","error"}', Acts='{"reqn","cancel","complete","error","hin"}'), "answered streams", True)
    e.conc(900 if q else 30000)
