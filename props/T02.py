"""Runs of a connection, and the listener."""
import json

TECHNIQUE = "TLA+ (TLC): state machine of a connection's run (SockRun) against which recorded runs of generated scripts are checked; listener specification (SockServer) replayed"
NOTE = ("All scripts of a few inputs - setup (also refused or blocking), requests (handled, failing, blocking), undecodable, unknown, short and empty frames, several in one chunk, end of stream, read error, close, cancel, a blocked handler going on - for both roles, then longer random ones; "
        "the listener with up to three connections, closed or cancelled at every point. Keep-alive frames are not supported by the implementation and count as unknown.")
ALL = ["setup", "setupfail", "setupblock", "req", "fail", "block", "badsetup", "unknown", "short", "zero"]
S = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"


def run(ctx):
    q = ctx.quick
    b = ctx.build("sock")
    beh = []

    def gen(items, ends, sim=None, depth=None, **k):
        beh.extend(ctx.gen("SockScript", "SockScript", defs={"Items": S(items), "Ends": S(ends)}, over=k, sim=sim, depth=depth))
    gen(ALL, ["", "eof", "bad"], D=2)
    gen(["setup", "req", "fail", "block"], ["", "eof"], D=3 if q else 4)
    gen(["setup", "req", "fail"], ["", "eof"], D=2, MaxChunk=2 if q else 3)
    gen(["setup", "setupblock", "req", "block", "fail", "short"], ["", "eof", "bad"], D=7, MaxChunk=3, sim=1500 if q else 40000, depth=9)
    if not q:
        gen(ALL, ["", "eof", "bad"], D=3)
    step = 40000
    for k in range(0, len(beh), step):
        tr = ctx.replay(b, beh[k:k + step], test="TestRun", collect=True, what="runs of a connection")
        ctx.cov["traces_validated_against_impl"] -= len(tr)
        if ctx.violations:
            return
        ctx.validate("SockRun", "SockRun", [x for _, x in tr])
    beh = ctx.gen("SockServer", "SockServerCover", over={"Cs": "{1, 2}" if q else "{1, 2, 3}"})
    beh += ctx.gen("SockServer", "SockServer", over={"D": 6 if q else 8, "Cs": "{1, 2}"})
    beh += ctx.gen("SockServer", "SockServer", over={"D": 14, "Cs": "{1, 2, 3}"}, sim=300 if q else 20000, depth=16)
    ctx.replay(b, beh, test="TestServer", what="servers")
    race = ctx.build("sock", race=True)
    n = 1500 if q else 40000
    for k in range(0, n, 8000):
        lines = [json.dumps([{"seed": ctx.seed * 1000003 + k + j}]) for j in range(min(8000, n - k))]
        tr = ctx.replay(race, lines, test="TestServerConc", collect=True, what="busy servers")
        ctx.cov["traces_validated_against_impl"] -= len(tr)
        if ctx.violations:
            return
        ctx.validate("SockServerTrace", "SockServerTrace", [x for _, x in tr])
