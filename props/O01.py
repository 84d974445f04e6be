TECHNIQUE = "TLA+ (TLC): the list encoding and the registration of operations as specifications; tables and registration histories enumerated by TLC and replayed"
NOTE = ("All tables of up to two operations over kinds, directions and boundary names/numbers, longer ones with fewer values; all registration histories to depth 3 within two kinds (quick) "
        "pairs of registrations with names that read alike once joined, and random histories of length 5 to 30 over all kinds with colliding names. The registry of a process is append-only, so behaviours use disjoint namespaces.")
from props.F01 import Q, SET, PAT


def run(ctx):
    q = ctx.quick
    b = ctx.build("optable")
    idx = [Q(v) for v in (0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff)]
    g = []
    add = lambda over=None, **k: g.extend(ctx.gen("OpTable", "OpTable", over=over or {}, defs=k))
    add(Idxs=SET(idx), NSs=PAT(97, (0, 1, 3)), Names=PAT(110, (0, 1, 2)), over={"MaxOps": 1})
    add(Idxs=SET(idx[:2]), NSs=PAT(97, (0, 1)), Names="{Pat(97,1), Pat(98,1)}", over={"MaxOps": 2})
    add(Idxs=SET([Q(5), Q(6)]), NSs=PAT(97, (1,)), Names=PAT(98, (1,)), over={"MaxOps": 3 if q else 4, "Types": "{1, 3}" if q else "{1, 4}"})
    add(Idxs=SET([Q(7)]), NSs=PAT(97, (0, 1, 127, 128, 255, 256, 257, 65534, 65535)), Names=PAT(98, (0, 1, 127, 128, 255, 256, 65534, 65535)), over={"MaxOps": 1, "Types": "{1, 3}"})
    add(Idxs=SET([Q(7)]), NSs=PAT(97, (0, 65535)), Names=PAT(98, (0, 40000)), over={"MaxOps": 2, "Types": "{2}"})
    add(Idxs=SET([Q(7)]), NSs=PAT(97, (2,)), Names=PAT(98, (3,)), over={"MaxOps": 2, "Types": "{4}", "Res": "{0, 1, 300}"})
    ctx.replay(b, g, test="TestTable", what="operation lists")
    r = ctx.gen("OpReg", "OpReg", over={"D": 2})
    r += ctx.gen("OpReg", "OpReg", over={"D": 3, "Kinds": '{"rr", "rs"}', "Names": '{"c"}'})
    r += ctx.gen("OpReg", "OpReg", over={"D": 3, "Kinds": '{"fnf", "rc"}', "Names": '{"c"}'})
    # names that read alike once joined
    pairs = []
    for sep in (".", "::", ":", "/", "-", "", "\\n", " "):
        pairs += ['<<"x%sy", "z">>' % sep, '<<"x", "y%sz">>' % sep]
    pairs += ['<<"", "xyz">>', '<<"xyz", "">>', '<<"X", "yz">>', '<<"z", "xy">>']
    r += ctx.gen("OpReg", "OpReg", over={"D": 2, "Same": "TRUE"}, defs={"Pairs": SET(pairs)})
    r += ctx.gen("OpReg", "OpReg", over={"D": 8}, defs={"Pairs": SET(pairs)}, sim=100 if q else 3000, depth=10)
    if not q:
        r += ctx.gen("OpReg", "OpReg", over={"D": 4, "Kinds": '{"rr"}'})
        r += ctx.gen("OpReg", "OpReg", over={"D": 4, "Kinds": '{"fnf", "rc"}', "NSs": '{"a"}'})
        r += ctx.gen("OpReg", "OpReg", over={"D": 4, "Kinds": '{"rs", "rr"}', "NSs": '{"a"}'})
    r += ctx.gen("OpReg", "OpReg", over={"D": 5}, sim=300 if q else 5000, depth=7)
    r += ctx.gen("OpReg", "OpReg", over={"D": 30}, sim=30 if q else 1000, depth=32)
    ctx.replay(b, r, test="TestReg", what="registration histories", shards=24 if q else 96)
