TECHNIQUE = "TLA+ (TLC): wire layout as TLA+ operators (PortIO); enumerated messages and expected bytes replayed into PortIO.Encode/Decode"
NOTE = "All marker combinations with port and data lengths over the boundary values of the length field up to 65535 (thorough: every length up to 520); names longer than the length field can carry are out of range."


def run(ctx):
    q = ctx.quick
    beh = ctx.gen("PortIO", "PortIO", over={"PortLens": "{0,1,2,3,5,127,128,255,256,257,511,512,32767,32768,65534,65535}", "DataLens": "{0,1,2,300,70000}"})
    beh += ctx.gen("PortIO", "PortIO", over={"PortLens": "0..40" if q else "0..520", "DataLens": "{0,1,255}" if q else "{0,1,2,3,4,255,256}"})
    beh += ctx.gen("PortIO", "PortIO", over={"Phase": '"bits"', "PortLens": "{0,1,2,255,256}", "DataLens": "{0,1,300}"})
    beh += ctx.gen("PortIO", "PortIO", over={"Phase": '"cut"', "PortLens": "{0,1,2,5}" if q else "{0,1,2,5,127,128,256}", "DataLens": "{0,1,2}"})
    ctx.replay(ctx.build("small"), beh, test="TestPortIO")
    ctx.assumptions += ["port names of at most 65535 bytes"]
