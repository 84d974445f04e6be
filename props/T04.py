TECHNIQUE = "TLA+ (TLC): state machine of a server, clients, what they ask of each other and strangers (Link); every transition and random long histories replayed on real unix, TCP and TLS sockets"
NOTE = "Outcomes are waited for up to 15 s. Orders in which bytes of the two directions cross are whatever the kernel gives."

ONE = {"Kinds": '{"rs"}', "Ops": '{"a"}', "Tables": '{"own"}'}


def run(ctx):
    q = ctx.quick
    b = ctx.build("sock")

    def rep(lines, mode, what):
        ctx.replay(b, lines, test="TestLink", env={"LINK": mode}, what=what + " (%s)" % mode)
    one = ctx.gen("Link", "LinkCover")
    D = 16 if q else 40
    rnd = ctx.gen("Link", "Link", over={"Clients": "{1,2,3}", "D": str(D)}, sim=600 if q else 8000, depth=D + 2)
    rep(one, "unix", "histories of one client")
    rep(one[ctx.seed % 3::3] if q else one, "tcp", "histories of one client")
    rep(one[ctx.seed % 5::5] if q else one, "tls", "histories of one client")
    for mode in ("unix", "tcp", "tls"):
        rep(rnd, mode, "long histories of three clients")
    rep(ctx.gen("Link", "LinkCover", over=dict(ONE, Clients="{1,2}") if q else dict(ONE, Clients="{1,2,3}")), "unix", "histories of several clients")
    rep(["[%s]" % ",".join([
        '{"a":"join","i":1,"f":"connect","t":"own","o":"refused"}', '{"a":"listen","o":"on"}', '{"a":"join","i":1,"f":"connect","t":"own","o":"up"}',
        '{"a":"ask","i":1,"d":"down","k":"rr","op":"a","o":"a"}', '{"a":"ask","i":1,"d":"up","k":"rr","op":"b","o":"b"}', '{"a":"stop","how":"close","ends":[1],"fails":[]}'])],
        "default", "history at the default address")
