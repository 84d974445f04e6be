"""One endpoint (socket peer, module host, guest): behaviours of Engine.tla replayed on the real endpoints, and what
real concurrent programs did checked against EngineTrace.tla."""
import json

SOCK = "client,server,host"
IN_ACTS = '{"reqn","cancel","next","complete","last","error","hin","unknown","big"}'
OUT_ACTS = '{"reqn","cancel","next","complete","last","error","ccancel","unknown","big","auto","await"}'
ALL_ACTS = '{"reqn","cancel","next","complete","last","error","hin","unknown","big","ccancel","auto","await"}'
ANSWER = {"Acts": IN_ACTS}
ASK = {"Ins": "{}", "Outs": '{"o1"}', "OutKinds": '{"rr","fnf","rs","rc"}', "Feeds": '{"create","error","slice","none","big"}', "Acts": OUT_ACTS}
MIX = dict(ASK, Ins='{"i1","i2"}', Outs='{"o1","o2"}', Acts=ALL_ACTS)


class Eng:
    def __init__(self, ctx):
        self.ctx = ctx
        self.sock = ctx.build("engine")
        self.guest = ctx.build("engine", tags="wasi")

    def rep(self, lines, guest, what, burst=True):
        b, e = (self.guest, "guest") if guest else (self.sock, SOCK)
        for env in ([{}, {"BURST": "1"}] if burst else [{}]):
            env = dict(env, ENDS=e)
            self.ctx.replay(b, lines, test="TestEngine", env=env, what=what + (" (guest)" if guest else " (client, server, host)") + (", arriving in bursts" if "BURST" in env else ""))

    def cover(self, over, what, incoming):
        """every transition of the specification's state graph once"""
        g = self.ctx.gen("Engine", "EngineCover", over=over)
        self.rep(g, False, what)
        if incoming:   # guests run handlers before they return from the hand-over
            g = self.ctx.gen("Engine", "EngineCover", over=dict(over, Gated="FALSE"))
        self.rep(g, True, what)

    def full(self, over, what, incoming, cfg="Engine"):
        """every behaviour up to a depth"""
        g = self.ctx.gen("Engine", cfg, over=over)
        self.rep(g, False, what)
        if incoming:
            g = self.ctx.gen("Engine", cfg, over=dict(over, Gated="FALSE"))
        self.rep(g, True, what)

    def sims(self, over, n, D, what, incoming=True):
        o = dict(over, D=str(D))
        g = self.ctx.gen("Engine", "EngineSim", over=o, sim=n, depth=D + 3)
        self.rep(g, False, what)
        if incoming:
            g = self.ctx.gen("Engine", "EngineSim", over=dict(o, Gated="FALSE"), sim=n, depth=D + 3)
        self.rep(g, True, what)

    def conc(self, n, base=0):
        ctx = self.ctx
        race = ctx.build("engine", race=True)
        for k in range(0, n, 3000):
            lines = [json.dumps([{"seed": ctx.seed * 1000003 + base + k + j, "end": ("client", "server", "host")[j % 3]}]) for j in range(min(3000, n - k))]
            tr = ctx.replay(race, lines, test="TestConc", collect=True, what="concurrent programs")
            T = [x for _, l in tr for x in l]
            ctx.cov["traces_validated_against_impl"] -= len(tr)
            if T and not ctx.violations:
                ctx.validate("EngineTrace", "EngineTrace", T, heap="8g")
