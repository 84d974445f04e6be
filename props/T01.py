"""Frames on a socket."""
import json

TECHNIQUE = "TLA+ (TLC): byte stream of a connection with arbitrary chunking and faults (SockWire, SockSend), replayed into the real connection; recordings of concurrent senders checked against SockTrace"
NOTE = ("Streams of up to four items - frames of several kinds and sizes up to the largest a length can announce, invalid items in between - cut at every place (short ones), near every boundary of frames and of 4096 bytes (long ones) or regularly from one byte up; the end of the stream anywhere and together with data or alone. "
        "Sending with and without flush, with a fault after any number of bytes; up to four concurrent senders under the race detector.")
R = lambda k, sid, md, data: '[k |-> "%s", sid |-> %d, md |-> Pat(5, %d), data |-> Pat(%d, %d), follows |-> FALSE, complete |-> TRUE, n |-> <<0,0,0,1>>]' % (k, sid, md, 60 + sid, data)
P = lambda sid, md, data: '[k |-> "payload", sid |-> %d, md |-> Pat(9, %d), data |-> Pat(%d, %d), follows |-> FALSE, complete |-> FALSE, next |-> TRUE]' % (sid, md, 30 + sid, data)
E = lambda sid, n: '[k |-> "error", sid |-> %d, code |-> <<0,0,2,1>>, data |-> Fill(%d, %d)]' % (sid, 64 + sid, n)
C = lambda sid: '[k |-> "cancel", sid |-> %d]' % sid
RAW = lambda w: "[raw |-> %s]" % w
SET = lambda l: "{" + ", ".join(l) + "}"
BADS = [RAW("<<>>"), RAW("Bs(<<0,0,0,1>>)"), RAW("Bs(<<0,0,0,1,36>>)"), RAW("Bs(<<0,0,0,1,12,0>>)"), RAW("Bs(<<0,0,0,1,24,0,0,0>>)"), RAW("U31(5) \\o U16(63 * 1024)"), RAW("U31(5) \\o U16(10 * 1024 + 256) \\o Bs(<<0,0,9,1>>)")]


def run(ctx):
    q = ctx.quick
    b = ctx.build("sock")
    beh = []

    def gen(**k):
        d = {"Items": SET(k.pop("items")), "Every": SET(map(str, k.pop("every", [0]))), "Near": SET(map(str, k.pop("near", [])))}
        beh.extend(ctx.gen("SockWire", "SockWire", defs=d, over=k, deadlock=True))
    # short streams cut anywhere
    gen(items=[C(1), P(2, 0, 2)], Len0=0, Len1=2, MaxChunks=2 if q else 3)
    gen(items=[C(1), P(2, 1, 0), R("rr", 3, 0, 1)], Len0=1, Len1=2 if q else 3, MaxChunks=1)
    gen(items=[C(1), R("rs", 5, 2, 3)] + BADS, Len0=1, Len1=2 if q else 3, MaxChunks=1, Early="FALSE")
    gen(items=[C(1), P(2, 0, 3)] + BADS[:3], Len0=1, Len1=3, every=[1, 2, 3, 5, 7, 10], MaxChunks=0, Early="FALSE")
    # frames around the sizes of buffers
    sizes = [4080, 8170, 8183, 8184, 12000] if q else [4075, 4084, 4085, 4086, 8170, 8176, 8180, 8182, 8183, 8184, 8185, 8186, 9000, 12000, 16384, 40000, 65535, 65536]
    near = [0, 1, 3] if q else [-3, -1, 0, 1, 2, 3, 4]
    gen(items=[P(k + 1, 0, n) for k, n in enumerate(sizes)], Len0=1, Len1=2, near=near, MaxChunks=1 if q else 2, Early="FALSE")
    gen(items=[P(1, 2, 5000), P(2, 0, 9), R("rc", 3, 0, 8183)], Len0=3, Len1=4, every=[1000, 4096, 8192, 30000], MaxChunks=0, Early="FALSE")
    gen(items=[P(1, 0, 0xffffff - 6), P(3, 100, 0xffffff - 200), C(5)], Len0=1, Len1=2, every=[65536 if q else 8191, 1 << 22, 1 << 24], MaxChunks=0, Early="FALSE")
    ctx.replay(b, beh, test="TestWire", what="chunked streams")
    # sending
    beh = []

    def send(items, faults, **k):
        beh.extend(ctx.gen("SockSend", "SockSend", defs={"Items": SET(items), "Faults": faults}, over=k))
    send([C(1), P(2, 0, 3)], "0..30", D=3 if q else 4)
    send([P(1, 0, 8170), P(2, 0, 8183), C(3), R("rr", 4, 0, 20000)], "{0, 1, 4, 8180, 8192, 8193, 8203, 16390, 20000}", D=2 if q else 3)
    send([P(1, 0, 0xffffff - 6), P(2, 0, 0xffffff - 5), R("rs", 3, 7, 0xffffff), C(4), E(5, 3), E(6, 0xffffff - 10), E(7, 0xffffff - 9), E(8, 0xffffff + 70)], "{0, 20}", D=2)
    ctx.replay(b, beh, test="TestSend", what="sends")
    # concurrent senders
    race = ctx.build("sock", race=True)
    n = 2000 if q else 60000
    for k in range(0, n, 6000):
        lines = [json.dumps([{"seed": ctx.seed * 1000003 + k + j}]) for j in range(min(6000, n - k))]
        tr = ctx.replay(race, lines, test="TestSendConc", collect=True, what="concurrent sends")
        ctx.cov["traces_validated_against_impl"] -= len(tr)
        if ctx.violations:
            return
        ctx.validate("SockTrace", "SockTrace", [x for _, x in tr])
