"""Shared machinery of the checks: running TLC, building the Go harness against
/repo's current working tree (go -overlay), replaying behaviours generated from
the specification, validating recorded traces, evidence and verdicts."""
import threading, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class Enough(Exception):
    """There are violations, and going on would take too long."""


class CheckError(Exception):
    """The check itself could not be carried out (neither pass nor violation)."""


class TLCResult:
    def __init__(self):
        self.lines, self.states, self.generated, self.out, self.ok = [], 0, 0, "", True
        self.depth = 0


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                res.append(json.loads(l))
    return res


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.cov = {}
        self.assumptions = []
        self.violations = []   # (sig, text, replay dict)
        self.hangs = False     # a behaviour hangs, also when run alone
        self.found = []        # mismatches of a replay that is still running
        if tier == "quick":
            # code that slows everything down: report what has been established before time is up
            self.timer = threading.Timer(780, self._late)
            self.timer.daemon = True
            self.timer.start()
        self.n = 0
        self.notes = []
        self.bins = {}

    # ---------------------------------------------------------------- logging
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def elapsed(self):
        return time.time() - self.t0

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, over=None, sim=None, depth=None, workers=None, heap="6g",
            timeout=800, files=None, expect_ok=True, deadlock=True, seed=None, label=None,
            count=True, defs=None):
        """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (constants overridden by `over`).
        Lines printed by PrintT("@...") are returned (decoded).  sim=N: simulation of N traces."""
        self.n += 1
        d = os.path.join(self.work, "tlc%d" % self.n)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(content)
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        over = dict(over or {})
        for k in [k for k, v in over.items() if ".." in str(v)]:
            defs = dict(defs or {}, **{k: over.pop(k)})
        for k, v in over.items():
            text, c = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
            if c != 1:
                raise CheckError("constant %s not in %s.cfg" % (k, cfg))
        root = module
        if defs:
            # constants that a .cfg file cannot express: defined in a wrapper module
            root = "MCRun"
            body = []
            for k, v in defs.items():
                text, c = re.subn(r"(?m)^(\s*)%s\s*=.*$" % re.escape(k), lambda m: "%s%s <- def_%s" % (m.group(1), k, k), text)
                if c != 1:
                    raise CheckError("constant %s not in %s.cfg" % (k, cfg))
                body.append("def_%s == %s" % (k, v))
            with open(os.path.join(d, "MCRun.tla"), "w") as fh:
                fh.write("---- MODULE MCRun ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(body)))
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            fh.write(text)
        if workers is None:
            workers = 1 if sim else NCPU
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + d, "-cp", JARS, "tlc2.TLC",
               "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
               "-noGenerateSpecTE", "-nowarning", "-fp", "7"]
        if not deadlock:
            cmd += ["-deadlock"]
        if sim:
            cmd += ["-simulate", "num=%d" % sim]
            cmd += ["-seed", str((self.seed if seed is None else seed) * 7919 + 17)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += [root + ".tla"]
        t = time.time()
        res = TLCResult()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout,
                                   env=dict(os.environ, TMPDIR=d))
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        rest = []
        with open(outp, errors="replace") as fi:
            for l in fi:
                if l.startswith('"@'):
                    res.lines.append(json.loads(l)[1:])
                else:
                    rest.append(l)
        res.out = "".join(rest)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", res.out)
        if m:
            res.generated = int(m[-1][0].replace(",", ""))
            res.states = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"([\d,]+) states checked", res.out) or re.findall(r"states generated:? ?([\d,]+)", res.out)
            if m:
                res.generated = res.states = int(m[-1].replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
        if m:
            res.depth = int(m.group(1))
        res.ok = p.returncode == 0
        self.log("TLC %s/%s%s: rc=%d generated=%d distinct=%d printed=%d (%.1fs)" % (
            module, cfg, " " + label if label else "", p.returncode, res.generated, res.states,
            len(res.lines), time.time() - t))
        if expect_ok and not res.ok:
            sys.stdout.write("\n".join(l for l in res.out.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))[-3000:] + "\n")
            raise CheckError("TLC failed on %s/%s (a property of the specification itself, not of the code)" % (module, cfg))
        if count:
            self.add("states", res.states)
            self.add("transitions", res.generated)
        shutil.rmtree(d, ignore_errors=True)
        return res

    def gen(self, module, cfg, **kw):
        """Behaviours printed by the specification, decoded and deduplicated."""
        r = self.tlc(module, cfg, **kw)
        seen, res = set(), []
        for l in r.lines:
            h = hashlib.blake2b(l.encode(), digest_size=12).digest()
            if kw.get("sim") and l.startswith("[{"):
                # in simulation mode TLC evaluates the printing invariant on every successor of the
                # last state: keep one behaviour per simulated prefix
                h = hashlib.blake2b(json.dumps(json.loads(l)[:-1]).encode(), digest_size=12).digest()
            if h not in seen:
                seen.add(h)
                res.append(l)
        return res   # JSON text lines

    # ------------------------------------------------------------- Go harness
    def overlay(self, extra=None, tags=None):
        rep = {}
        if tags and "wasi" in tags:
            rep.update(self.wasi_standins())
        for root, _, files in os.walk(HARNESS):
            for f in files:
                if f.endswith(".go"):
                    src = os.path.join(root, f)
                    rel = os.path.relpath(src, HARNESS)
                    rep[os.path.join(REPO, "internal", "zzverif", rel)] = src
        for dst, src in (extra or {}).items():
            rep[os.path.join(REPO, dst)] = os.path.join(HARNESS, src)
        p = os.path.join(self.work, "overlay%d.json" % len(self.bins))
        json.dump({"Replace": rep}, open(p, "w"))
        return p

    def wasi_standins(self):
        """The guest half of the code is selected by the tag `wasi`; three files of it hold only what a 32 bit
        WebAssembly target provides and do not compile here.  They are compiled with that replaced, everything
        else in them as it stands in the tree."""
        rep = {}
        for f in ("msgpack/unsafe_webassembly.go", "internal/strbytes/unsafe_webassembly.go", "internal/trap/trap_webassembly.go"):
            p = os.path.join(REPO, f)
            if not os.path.exists(p):
                continue
            t = open(p).read()
            t = t.replace("uintptr(len(s))", "len(s)")
            t = re.sub(r"(?m)^func Trap\(\)\s*$", 'func Trap() { panic("block") }', t)
            q = os.path.join(self.work, "wasi-" + f.replace("/", "_"))
            open(q, "w").write(t)
            rep[p] = q
        # the functions of the host which a guest imports, played by the harness
        q = os.path.join(self.work, "wasi-guest-imports.go")
        open(q, "w").write("""package guest

var (
	VInitBuffers func(guestBufferPtr, hostBufferPtr uintptr)
	VOpList      func(opPtr uintptr, opSize uint32)
	VHostSend    func(nextSendPos uint32)
)

func initBuffers(guestBufferPtr uintptr, hostBufferPtr uintptr) { VInitBuffers(guestBufferPtr, hostBufferPtr) }
func opList(opPtr uintptr, opSize uint32)                       { VOpList(opPtr, opSize) }
func hostSend(nextSendPos uint32)                               { VHostSend(nextSendPos) }
""")
        rep[os.path.join(REPO, "transport/wasmrs/guest/imports_webassembly.go")] = q
        p = os.path.join(REPO, "internal/strbytes/unsafe.go")
        if os.path.exists(p):   # its constraint does not exclude `wasi` as its counterpart's does
            t = open(p).read()
            if not re.search(r"//go:build[^\n]*!wasi", t):
                q = os.path.join(self.work, "wasi-strbytes-host.go")
                open(q, "w").write("//go:build ignore\n\npackage strbytes\n")
                rep[p] = q
        return rep

    def goenv(self):
        e = dict(os.environ)
        e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOSUMDB="off", GODEBUG="asynctimerchan=0")
        return e

    def sub_overlay(self, mod):
        """The harness within a nested module of the repository: same files, other import path."""
        rep = {}
        d = os.path.join(self.work, "sub-" + mod.replace("/", "_"))
        old, new = "github.com/nanobus/iota/go/internal/zzverif", "github.com/nanobus/iota/go/" + mod + "/internal/zzverif"
        for root, _, files in os.walk(HARNESS):
            for f in files:
                if f.endswith(".go"):
                    rel = os.path.relpath(os.path.join(root, f), HARNESS)
                    q = os.path.join(d, rel)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    open(q, "w").write(open(os.path.join(root, f)).read().replace(old, new))
                    rep[os.path.join(REPO, mod, "internal", "zzverif", rel)] = q
        p = os.path.join(self.work, "overlay-sub%d.json" % len(self.bins))
        json.dump({"Replace": rep}, open(p, "w"))
        return p

    def build(self, pkg, tags=None, race=False, extra=None, mod=None):
        key = (pkg, tags, race)
        if key in self.bins:
            return self.bins[key]
        ov = self.sub_overlay(mod) if mod else self.overlay(extra, tags)
        out = os.path.join(self.work, "h%d%s.test" % (len(self.bins), "-race" if race else ""))
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
        cmd += ["./internal/zzverif/" + pkg]
        t = time.time()
        env = self.goenv()
        if race:
            env["CGO_ENABLED"] = "1"
        p = subprocess.run(cmd, cwd=os.path.join(REPO, mod) if mod else REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode or not os.path.exists(out):
            sys.stdout.write(p.stdout[-4000:])
            raise CheckError("harness %s does not build against the current tree" % pkg)
        self.log("built harness %s%s (%.1fs)" % (pkg, " -race" if race else "", time.time() - t))
        self.bins[key] = out
        return out

    def _proc(self, binp, infile, outfile, test, env, start, only, limit):
        e = self.goenv()
        e.update(env)
        e.update(VH_IN=infile, VH_OUT=outfile, VH_START=str(start), VH_ONLY="" if only is None else str(only),
                 VH_SEED=str(self.seed), VH_TIER=self.tier)
        if "GORACE" not in e:
            e["GORACE"] = "exitcode=66 halt_on_error=1"
        # code that takes memory without bound ends itself and not the sandbox (the race detector reserves more)
        lim = [] if "-race" in binp or not shutil.which("prlimit") else ["prlimit", "--data=%d" % (4 << 30)]
        try:
            p = subprocess.run(lim + [binp, "-test.run", "^" + test + "$", "-test.timeout", "%ds" % limit, "-test.count=1"],
                               cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               errors="replace", timeout=limit + 60)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            return 124, (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")

    def _shard(self, k, binp, lines, test, env, limit, maxbad):
        infile = os.path.join(self.work, "in-%d-%d.jsonl" % (self.n, k))
        outfile = infile.replace("in-", "out-")
        with open(infile, "w") as fh:
            for l in lines:
                fh.write(l if isinstance(l, str) else json.dumps(l))
                fh.write("\n")
        start, done, bad, outs = 0, 0, [], []
        self.found.append((lines, bad, test))
        while start < len(lines):
            open(outfile, "w").close()
            rc, out = self._proc(binp, infile, outfile, test, env, start, None, limit)
            cur, lastdone = None, start - 1
            ended = False
            for l in open(outfile, errors="replace"):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r["t"] == "B":
                    cur = r["i"]
                elif r["t"] == "E":
                    done += 1
                    lastdone = r["i"]
                    cur = None
                    if not r.get("ok", True):
                        bad.append((r["i"], r.get("d")))
                    if r.get("x") is not None:
                        outs.append((r["i"], r["x"]))
                elif r["t"] == "END":
                    ended = True
            if len(bad) >= maxbad:
                break
            if ended and rc == 0:
                break
            if rc == 4 and cur is None and bad and bad[-1][0] == lastdone:
                start = lastdone + 1   # mismatch after which the process had to be restarted
                continue
            if cur is None and rc == 0:
                raise CheckError("harness stopped early without saying why: " + out[-2000:])
            if cur is None:
                # crashed between behaviours: attribute to the last one
                cur = lastdone
                if cur < start:
                    raise CheckError("harness failed before the first behaviour: " + out[-3000:])
            # the process died while behaviour cur ran: confirm by running it alone
            open(outfile, "w").close()
            conf = 0
            d2 = None
            for _ in range(3):
                open(outfile, "w").close()
                rc2, out2 = self._proc(binp, infile, outfile, test, env, 0, cur, limit)
                ok2 = False
                for l in open(outfile, errors="replace"):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    if r["t"] == "E":
                        if r.get("ok", True):
                            ok2 = True
                        else:
                            d2 = r.get("d")
                            ok2 = False
                if rc2 != 0 or not ok2:
                    conf += 1
                    out = out2
                    break
            if conf:
                bad.append((cur, d2 or {"crash": _crash_text(out), "rc": rc}))
                done += 1
                if rc == 3 and rc2 == 3:
                    self.hangs = True   # established; more of them would only take time
                    break
            elif "DATA RACE" in out or "panic:" in out or "fatal error:" in out or "concurrent map" in out:
                # schedule dependent: the crash itself is evidence enough
                bad.append((cur, {"crash": _crash_text(out), "rc": rc, "note": "schedule dependent"}))
                done += 1
            elif rc == 3:
                self.log("a behaviour ran into the time limit once and not when run alone; inconclusive, skipped")
            else:
                raise CheckError("harness process died (rc=%d) and the behaviour does not reproduce it: %s" % (rc, out[-2000:]))
            start = cur + 1
            if len(bad) >= maxbad or (bad and self.hangs):
                break
        return done, bad, outs

    def _late(self):
        if not self.violations:
            for lines, bad, test in list(self.found):
                for i, d in list(bad):
                    self.violation(lines[i], d, test=test)
        if self.violations and self.finish():
            self.cleanup()
            os._exit(1)

    def replay(self, binp, lines, test="TestReplay", env=None, shards=None, limit=600, maxbad=5, what="behaviours",
               kind="replay", collect=False):
        """Replays behaviours (JSON lines, each a list of steps with expected observations, or an object)
        into the real code; records a violation per mismatch."""
        self.n += 1
        if not lines:
            raise CheckError("no behaviours to replay")
        shards = shards or min(NCPU, max(1, len(lines) // 8))
        idx = [list(range(k, len(lines), shards)) for k in range(shards)]
        t = time.time()
        with ThreadPoolExecutor(shards) as ex:
            fut = [ex.submit(self._shard, k, binp, [lines[i] for i in idx[k]], test, env or {}, limit, maxbad)
                   for k in range(shards)]
            res = [f.result() for f in fut]
        self.found = []
        total, outs = 0, []
        for k, (done, bad, o) in enumerate(res):
            total += done
            outs += [(idx[k][i], x) for i, x in o]
            for i, d in bad:
                self.violation(lines[idx[k][i]], d, kind=kind, test=test)
        self.log("replayed %d %s, %d mismatches (%.1fs)" % (total, what, sum(len(r[1]) for r in res), time.time() - t))
        if self.hangs and self.violations:
            raise Enough("behaviours hang")
        self.add("traces_validated_against_impl", total)
        smp = self.cov.setdefault("samples", [])
        if len(smp) < 6:
            l = lines[len(lines) // 2]
            smp.append((l if isinstance(l, str) else json.dumps(l))[:1500])
        if collect:
            return sorted(outs)
        return total

    # --------------------------------------------------------------- verdicts
    def violation(self, behaviour, detail, kind="replay", test=None, sig=None):
        b = json.loads(behaviour) if isinstance(behaviour, str) else behaviour
        self.violations.append((sig or _sig(detail), {"property": self.prop, "kind": kind, "test": test,
                                                      "behaviour": b, "detail": detail, "seed": self.seed}))

    def validate(self, module, cfg, traces, what="traces", heap="6g", timeout=600, over=None):
        """Trace validation: every recorded trace must be a behaviour of the specification.
        The trace spec reads traces.json (an array of traces) and prints @<index> for each trace
        that it can explain to the end."""
        if not traces:
            raise CheckError("no traces recorded")
        t = time.time()
        files = {"traces.json": json.dumps(traces)}
        r = self.tlc(module, cfg, files=files, heap=heap, timeout=timeout, deadlock=False, over=over, label="%d traces" % len(traces))
        acc = set(int(l) for l in r.lines if l.isdigit())
        bad = [i for i in range(1, len(traces) + 1) if i not in acc]
        for i in bad[:5]:
            self.violation(traces[i - 1], {"reason": "the recorded trace is not a behaviour of the specification"},
                           kind="trace", sig="trace-rejected")
        self.add("traces_validated_against_impl", len(traces))
        smp = self.cov.setdefault("samples", [])
        if len(smp) < 6:
            smp.append(json.dumps(traces[0])[:1500])
        self.log("validated %d %s, %d rejected (%.1fs)" % (len(traces), what, len(bad), time.time() - t))
        return bad

    def finish(self, level="model_checking", technique=None):
        kf = [k for k in known_findings() if k.get("property") == self.prop and k.get("status") == "known"]
        new = []
        for sig, rep in self.violations:
            hit = None
            for k in kf:
                if _matches(k, sig, rep):
                    hit = k
            if not hit:
                new.append((sig, rep))
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        rd = os.path.join(VERIF, "replays")
        rc = 0
        paths = []
        if new:
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for sig, rep in new:
                if seen.get(sig, 0) >= 1 or len(paths) >= 6:
                    continue
                seen[sig] = seen.get(sig, 0) + 1
                p = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, len(paths) + 1))
                json.dump(rep, open(p, "w"), indent=1)
                paths.append(p)
                print("detail:", json.dumps(rep["detail"])[:1500])
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            rc = 1
        self.cov.setdefault("states", 0)
        self.cov.setdefault("transitions", 0)
        self.cov.setdefault("traces_validated_against_impl", 0)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(new)}
        if self.notes:
            ev["notes"] = "; ".join(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        self.log("done:", json.dumps(self.cov), "violations=%d" % len(new))
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _crash_text(out):
    i = -1
    for m in ("panic:", "fatal error:", "WARNING: DATA RACE", "SIGSEGV"):
        j = out.find(m)
        if j >= 0 and (i < 0 or j < i):
            i = j
    return out[i:i + 1800] if i >= 0 else out[-1800:]


def _sig(d):
    if isinstance(d, dict):
        if "crash" in d:
            m = re.search(r"(panic:|fatal error:|WARNING: DATA RACE)[^\n]*", d["crash"])
            return "crash:" + (m.group(0)[:80] if m else "?")
        return "mismatch:" + str(d.get("step", {}).get("a") if isinstance(d.get("step"), dict) else d.get("reason", ""))
    return "mismatch"


def _matches(k, sig, rep):
    """A known finding names the exact behaviour (as text contained in the JSON of behaviour and detail)."""
    m = k.get("match")
    if not m:
        return False
    text = json.dumps({"behaviour": rep["behaviour"], "detail": rep["detail"]}, sort_keys=True)
    return all(x in text for x in (m if isinstance(m, list) else [m]))
