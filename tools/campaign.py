#!/usr/bin/env python3
"""Mutation campaign (a tool for strengthening the checks; no check uses it).

campaign.py OUT.jsonl WORKERS SAMPLE SEED [FILE...]: mutates the files in scratch clones of /repo, keeps the mutants
that build and pass the stable tests, and runs the quick checks of the parts the file belongs to until one reports a
violation.  Runs the checks from a copy of /verif in which TLC's output is remembered (the specifications do not
change), so that evidence and replays of /verif stay as they are."""
import json, os, random, re, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VM = "/tmp/vm"
MUT = "/tmp/mk/mutator"
CHECKS = [
    ("rx/flow/", "R04"), ("rx/await/", "R03 R04"), ("rx/flux/", "R01 R02 R03 P03"), ("rx/mono/", "R01 R03 R04 P02"), ("rx/rx.go", "R01 R02"),
    ("proxy/lookup", "P05"), ("proxy/sequence", "P01 P02 P03 P04 R03 P07"), ("proxy/stream", "P01 P02 H04"), ("proxy/responder", "P01 P03 P04 P07"),
    ("proxy/", "P02 P03 P04 P07 R03"), ("handler/handler", "P01 P02 P03 P04 P07 P06 P05 O01 H04"), ("handler/caller", "O01 P02 P03"),
    ("internal/frames/", "F01 F02 F03"), ("internal/buffer/", "T03"), ("internal/socket/", "P06"), ("internal/u24/", "F01 F03"),
    ("internal/strbytes/", "F01 C01"), ("internal/common/", "T01"), ("invoke/instances", "L01"), ("invoke/portio", "K01"), ("invoke/", "O01 L01 K01"),
    ("operations/", "O01 F03"), ("payload/", "C04 P02"), ("transform/", "C04"), ("msgpack/convert/", "C03"),
    ("msgpack/decoder", "C02 C01"), ("msgpack/data_reader", "C02 C01"), ("msgpack/", "C01 C02 C04"),
    ("transport/rsocket/", "T01 T02 P07 P03"), ("transport/wasmrs/guest/", "P01 P02 P07 P03 H02 H03 H01 H04"), ("transport/wasmrs/host/", "P01 P02 H01 H02 H03 P07 P03 H04"),
    ("transport/wasmrs/mesh/mesh", "M01 M02"), ("types/uuid/", "U01"), ("transport/wasmrs/customsections/", "F03 O01"),
]


def sh(cmd, cwd, t=300):
    e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout", "")


def prepare():
    sh("rsync -a --delete --exclude=.git --exclude=seeded --exclude=replays --exclude=evidence %s/ %s/ || (rm -rf %s && cp -a %s %s)" % (VERIF, VM, VM, VERIF, VM), "/")
    p = os.path.join(VM, "vlib.py")
    s = open(p).read()
    s = s.replace("        t = time.time()\n        res = TLCResult()\n        outp = os.path.join(d, \"out.txt\")\n", """        import pickle
        cf = None
        if not files:
            hh = hashlib.sha256(repr([a for a in cmd if d not in a]).encode())
            for f in sorted(os.listdir(d)):
                if os.path.isfile(os.path.join(d, f)): hh.update(f.encode()); hh.update(open(os.path.join(d, f), "rb").read())
            cf = "/tmp/mk/tlccache/" + hh.hexdigest()
            os.makedirs("/tmp/mk/tlccache", exist_ok=True)
            if os.path.exists(cf):
                shutil.rmtree(d, ignore_errors=True)
                return pickle.load(open(cf, "rb"))
        t = time.time()
        res = TLCResult()
        outp = os.path.join(d, "out.txt")
""")
    s = s.replace("        shutil.rmtree(d, ignore_errors=True)\n        return res\n\n    def gen(", """        shutil.rmtree(d, ignore_errors=True)
        if cf and res.ok:
            pickle.dump(res, open(cf + ".%d" % os.getpid(), "wb")); os.rename(cf + ".%d" % os.getpid(), cf)
        return res

    def gen(""")
    assert "tlccache" in s and "os.rename(cf" in s
    open(p, "w").write(s)


def main():
    out, workers, sample, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:]
    prepare()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    jobs = []
    rnd = random.Random(seed)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["what"]))
    for f in files:
        ls = sh("%s /repo/%s" % (MUT, f), "/").stdout.splitlines()
        ls = [l.split("\t", 1) for l in ls]
        rnd.shuffle(ls)
        for k, what in ls[:sample]:
            if (f, what) not in done:
                jobs.append((f, int(k), what))
    rnd.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    lock = threading.Lock()

    def work(w):
        d = "/tmp/mut/w%d" % w
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs("/tmp/mut", exist_ok=True)
        sh("git clone -q /repo " + d, "/")
        while True:
            with lock:
                if not jobs:
                    return
                f, k, what = jobs.pop()
            sh("git checkout -q -- .", d)
            m = subprocess.run([MUT, "/repo/" + f, str(k)], stdout=subprocess.PIPE).stdout
            open(os.path.join(d, f), "wb").write(m)
            r = {"file": f, "k": k, "what": what, "t": {}}
            t0 = time.time()
            mod = "types/uuid" if f.startswith("types/uuid") else "."
            b = sh("go build -o /dev/null ./%s && go vet -composites=false ./%s >/dev/null 2>&1; go build ./msgpack ./handler ./transport/wasmrs/mesh" % ((os.path.dirname(f), os.path.dirname(f)) if mod == "." else ("", "")) if mod == "." else "cd types/uuid && go build ./...", d)
            if b.returncode:
                r["res"] = "nobuild"
            else:
                q = sh("go test -vet=off -count=1 -timeout 60s ./internal/buffer ./internal/common ./internal/frames ./internal/socket ./internal/u24 ./msgpack", d, 200)
                if q.returncode:
                    r["res"] = "tests"
                else:
                    cs = next(c for p, c in CHECKS if f.startswith(p)).split()
                    r["res"] = "SURVIVED"
                    for c in cs:
                        t = time.time()
                        q = sh("VERIF_REPO=%s timeout 420 python3 check.py %s quick" % (d, c), VM, 450)
                        r["t"][c] = [q.returncode, round(time.time() - t)]
                        if q.returncode == 1:
                            r["res"] = c
                            mm = re.search(r"detail:.*", q.stdout)
                            r["detail"] = mm.group(0)[:300] if mm else ""
                            break
                        if q.returncode not in (0, 1):
                            r.setdefault("errs", {})[c] = q.stdout[-600:]
                            r["res"] = "ERROR"
            r["s"] = round(time.time() - t0)
            with lock:
                with open(out, "a") as fh:
                    fh.write(json.dumps(r) + "\n")
        
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
