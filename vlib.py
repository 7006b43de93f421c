"""Machinery shared by all checks: scratch space, builds, TLC runs, the driver,
trace validation, evidence and verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)

GOENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             CGO_ENABLED="0", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), HOME=os.environ.get("HOME", "/root"),
             PATH="/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""))


class CheckError(Exception):
    """The check could not decide (never a violation)."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="psv-%s-" % prop, dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.notes = [], [], []
        self.kinds = {}
        self.lock = threading.Lock()
        self.thorough = tier == "thorough"

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)

    def sub(self, name):
        d = tempfile.mkdtemp(prefix=name + "-", dir=self.dir)
        os.chmod(d, 0o755)
        return d

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---- building -------------------------------------------------------
    def build(self, race=False):
        """The driver and the command, from the working tree of /repo."""
        src = os.path.join(self.dir, "harness")
        if not os.path.exists(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = open(src + "/go.mod").read().replace("=> /repo", "=> " + REPO)
            open(src + "/go.mod", "w").write(mod)
            ov = {REPO + "/crypto/zz_verif_export.go": src + "/overlay/crypto_export.go"}
            json.dump({"Replace": ov}, open(self.dir + "/overlay.json", "w"))
            # The nonce counter is internal: used if it is there.
            json.dump({"Replace": dict(ov, **{REPO + "/crypto/zz_verif_nonce.go": src + "/overlay/crypto_nonce.go"})},
                      open(self.dir + "/overlay-nonce.json", "w"))
        out = os.path.join(self.dir, "psdrv-race" if race else "psdrv")
        env = dict(GOENV, CGO_ENABLED="1") if race else GOENV
        base = ["go", "build"] + (["-race"] if race else [])
        for ov, tags in (("overlay-nonce", "inpkg,innonce"), ("overlay", "inpkg")):
            r = subprocess.run(base + ["-overlay", "%s/%s.json" % (self.dir, ov), "-tags", tags, "-o", out, "."],
                               cwd=src, env=env, capture_output=True, text=True)
            if r.returncode == 0:
                break
        self.inpkg = r.returncode == 0
        self.innonce = self.inpkg and "innonce" in tags
        if r.returncode != 0:
            # seal/open may have been renamed: drive the package through its API only.
            r2 = subprocess.run(base + ["-o", out, "."], cwd=src, env=env, capture_output=True, text=True)
            if r2.returncode != 0:
                raise CheckError("the driver does not build:\n" + r.stderr + r2.stderr)
            self.notes.append("built without in-package access to seal/open: " + r.stderr[:300])
        if not race:
            self.cli = os.path.join(self.dir, "psignify")
            r = subprocess.run(["go", "build", "-o", self.cli, "./cmd/psignify"], cwd=REPO, env=GOENV,
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError("psignify does not build:\n" + r.stderr)
            self.drv = out
        else:
            self.drv_race = out
        return out

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, *args, workers=4, env=None, timeout=800, heap="3g"):
        meta = self.sub("tlc")
        cmd = ["java", "-Djava.io.tmpdir=" + self.dir, "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", TLAJARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg] + list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s %s" % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    def model(self, module, cfg, simulate=None, depth=None, workers=4, timeout=800):
        """Explore a design model; it must satisfy its properties. Returns the cases it emitted."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth or 40), "-seed", str(self.seed * 7919 + 13)]
            workers = 1
        t = time.time()
        rc, out = self.tlc(module + ".tla", cfg, *args, workers=workers, timeout=timeout)
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE '):
                try:
                    cases.append(json.loads(json.loads(line)[5:]))
                except ValueError:
                    raise CheckError("garbled TLC output: " + line[:200])
        rest = "\n".join(x for x in out.splitlines() if not x.startswith('"CASE '))
        if rc != 0:
            raise CheckError("the design model %s/%s does not satisfy its properties:\n%s" % (module, cfg, rest[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", rest)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
        else:
            m = re.findall(r"The number of states generated: (\d+)", rest)
            gen = dist = int(m[-1]) if m else 0
        with self.lock:
            self.transitions += gen
            self.states += dist
            self.models.append({"module": module, "cfg": cfg, "mode": "simulation" if simulate else "exhaustive",
                                "states_generated": gen, "distinct": dist, "cases": len(cases),
                                "wall_s": round(time.time() - t, 1)})
        self.log("model", module, cfg, "generated", gen, "distinct", dist, "cases", len(cases))
        return cases

    # ---- the driver -------------------------------------------------------
    def drive(self, cases, name, shards=None, drv=None, timeout=700, extra=(), fresh=False):
        """Execute the cases (each in a process of its own, if fresh); returns the
        recorded events in case order."""
        if not cases:
            raise CheckError("no cases for " + name)
        shards = max(1, min(shards or NCPU, len(cases)))
        drv = drv or self.drv
        for i, c in enumerate(cases):
            c["idx"] = i
            c.setdefault("rid", i)  # fixes the random choices, also when the case is repeated alone
        parts = [list(range(s, len(cases), shards)) for s in range(shards)]
        if fresh:
            parts = [[i] for i in range(len(cases))]
        d = self.sub("drive-" + name)
        t = time.time()

        def one(s):
            w = os.path.join(d, "w%d" % s)
            os.mkdir(w)
            os.chmod(w, 0o755)
            cf, tf, pf = w + "/cases", w + "/trace", w + "/progress"
            with open(cf, "w") as f:
                for i in parts[s]:
                    f.write(json.dumps(cases[i]) + "\n")
            open(tf, "w").close()
            skip = died = 0
            while skip < len(parts[s]):
                left = timeout - (time.time() - t)
                try:
                    p = subprocess.run([drv, "-cases", cf, "-out", tf, "-scratch", w + "/scratch", "-progress", pf,
                                        "-skip", str(skip), "-cli", self.cli, "-seed", str(self.seed),
                                        "-data", os.path.join(VERIF, "data")] + list(extra),
                                       capture_output=True, timeout=max(left, 1), env=GOENV)
                except subprocess.TimeoutExpired:
                    raise CheckError("the driver took too long (%s)" % name)
                if p.returncode == 0:
                    break
                cur = int(open(pf).read())
                err = p.stderr.decode(errors="replace")
                if p.returncode == 2 and "psdrv: " in err and "goroutine" not in err:
                    raise CheckError("driver error: " + err[-2000:])
                died += 1
                if p.returncode == 4:  # a call that does not return
                    with open(tf, "a") as f:
                        f.write("\n" + json.dumps({"ev": "died", "c": parts[s][cur], "msg": "hang"}) + "\n")
                    break
                else:
                    crash = "goroutine " in err or "fatal error:" in err or "DATA RACE" in err
                    if not crash:
                        raise CheckError("the driver died (exit %d): %s" % (p.returncode, err[-2000:]))
                    with open(tf, "a") as f:
                        f.write("\n" + json.dumps({"ev": "died", "c": parts[s][cur], "msg": err[:1500]}) + "\n")
                if died > 5:
                    break
                skip = cur + 1
            evs = []
            with open(tf) as f:
                for line in f:
                    line = line.strip()
                    if not line:
                        continue
                    try:
                        evs.append(json.loads(line))
                    except ValueError:
                        pass  # a line cut off by a crash; a "died" event follows
            return evs

        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(len(parts))))
        by = {}
        for evs in res:
            for e in evs:
                by.setdefault(e["c"], []).append(e)
        out = []
        for i in sorted(by):
            out.append((i, by[i]))
        self.log("drove", len(cases), "cases of", name, "events", sum(len(e) for _, e in out),
                 "in %.1fs" % (time.time() - t))
        shutil.rmtree(d, ignore_errors=True)
        return out

    # ---- trace validation ---------------------------------------------------
    def validate(self, module, groups, env=None, cfg="Trace.cfg"):
        """groups: [(case index, events)]. Returns None or (case index, events, line in case, event)."""
        d = self.sub("trace")
        chunks, cur, n = [], [], 0
        for g in groups:
            if n and n + len(g[1]) > 30000:
                chunks.append(cur)
                cur, n = [], 0
            cur.append(g)
            n += len(g[1])
        if cur:
            chunks.append(cur)
        # Split further to use the processors; the trace state is reset by every case.
        want = 4
        if len(chunks) == 1 and n > 400 and not self.serial_trace:
            gs, chunks = chunks[0], []
            total = sum(len(json.dumps(e)) for g in gs for e in g[1])
            cur, acc = [], 0
            for g in gs:
                cur.append(g)
                acc += sum(len(json.dumps(e)) for e in g[1])
                if acc > total / want:
                    chunks.append(cur)
                    cur, acc = [], 0
            if cur:
                chunks.append(cur)

        def one(k):
            gs = chunks[k]
            path = "%s/t%d.ndjson" % (d, k)
            flat = [(g[0], i, e) for g in gs for i, e in enumerate(g[1])]
            with open(path, "w") as f:
                for _, _, e in flat:
                    f.write(json.dumps(e) + "\n")
            rc, out = self.tlc(module + ".tla", cfg, workers=1,
                               env=dict(env or {}, TRACE=path, FOCUS=self.prop))
            m = re.search(r'"MATCHED (\d+) OF (\d+)"', out)
            if not m or rc != 0:
                raise CheckError("trace validation by %s failed to run (exit %d):\n%s\n...\n%s" % (module, rc, out[:2500], out[-1500:]))
            got, total = int(m.group(1)), int(m.group(2))
            if total != len(flat):
                raise CheckError("trace length mismatch")
            with self.lock:
                self.events += got
                self.states += got
            if got < total:
                ci, line, e = flat[got]
                return (ci, dict(gs)[ci], line, e)
            return None

        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, range(len(chunks))))
        bad = [r for r in res if r]
        with self.lock:
            self.traces += len(groups)
        self.log("validated", len(groups), "traces with", module, "rejected" if bad else "accepted")
        shutil.rmtree(d, ignore_errors=True)
        return min(bad, key=lambda r: r[0]) if bad else None

    serial_trace = False

    def conform(self, module, cases, name, drv=None, shards=None, env=None, cfg="Trace.cfg", extra=(), repeat=2, fresh=False):
        """Drive cases, validate; a rejection must be reproduced to count."""
        groups = self.drive(cases, name, drv=drv, shards=shards, extra=extra, fresh=fresh)
        for _, evs in groups:
            for e in evs:
                k = e["ev"] + ("" if "res" not in e else ":" + str(e["res"]))
                self.kinds[k] = self.kinds.get(k, 0) + 1
        if len(self.samples) < 4:
            i, evs = groups[len(groups) // 2]
            self.samples.append({"case": slim(cases[i]), "events": [slim(e) for e in evs[:4]]})
        bad = self.validate(module, groups, env=env, cfg=cfg)
        if not bad:
            return
        ci, evs, line, e = bad
        self.log("rejected:", json.dumps(slim(e))[:2000])
        case = dict(cases[ci])
        for attempt in range(repeat):
            again = self.drive([dict(case)], name + "-again", drv=drv, shards=1, extra=extra, fresh=fresh)
            bad2 = self.validate(module, again, env=env, cfg=cfg)
            if bad2:
                self.violation(module, case, bad2)
        # A trace may be rejected only for what earlier cases established (freshness).
        again = self.drive([dict(c) for c in cases], name + "-again", drv=drv, shards=shards, extra=extra, fresh=fresh)
        bad2 = self.validate(module, again, env=env, cfg=cfg)
        if bad2:
            self.violation(module, [slim(c) for c in cases[:50]], bad2)
        raise CheckError("a rejected trace could not be reproduced: case %s event %s" % (json.dumps(slim(case)), json.dumps(slim(e))))

    def violation(self, module, case, bad):
        ci, evs, line, e = bad
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (self.prop, self.tier))
        json.dump({"property": self.prop, "trace_spec": module, "seed": self.seed, "case": case,
                   "rejected_event_index": line, "rejected_event": e, "events": evs}, open(path, "w"), indent=1)
        self.write_evidence(1)
        print("The specification %s does not allow this event:" % module)
        print(json.dumps(slim(e))[:3000])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        raise Violation()

    # ---- evidence -------------------------------------------------------------
    def write_evidence(self, violations):
        if not self.samples:
            self.samples = ["none"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_validated": self.events,
                           "samples": self.samples[:4], "models": self.models, "event_kinds": self.kinds,
                           "notes": self.notes},
              "assumptions": ["cryptographic primitives of the Go standard library, x/crypto and bcrypt_pbkdf are correct",
                              "events record what the code did (driver in /verif/harness)"],
              "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


class Violation(Exception):
    pass


def slim(x, n=60):
    """x with long arrays and strings shortened."""
    if isinstance(x, dict):
        return {k: slim(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [slim(v, n) for v in x[:n]] + (["... %d in all" % len(x)] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + "..."
    return x


def sample(run, cases, n, salt=""):
    """A seeded sample of n cases (all, if there are no more)."""
    if len(cases) <= n:
        return list(cases)
    cases = sorted(cases, key=lambda c: json.dumps(c, sort_keys=True))
    return random.Random("%s/%s/%d" % (run.prop, salt, run.seed)).sample(cases, n)


def parallel(*fs):
    with ThreadPoolExecutor(len(fs)) as ex:
        hs = [ex.submit(f) for f in fs]
        return [h.result() for h in hs]


def literals():
    """The string and number literals of the code under test: inputs to try
    (what is done with them is judged in the same way as with any others)."""
    strs, ints = set(), set()
    num = r"(?:0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO]?[0-7_]*|[1-9][0-9_]*)"
    tok = re.compile(r'//[^\n]*|/\*.*?\*/|"((?:[^"\\\n]|\\.)*)"|`([^`]*)`|\'((?:[^\'\\\n]|\\[^\n]+?))\'|(?<![\w.])(' + num + r")(?:\s*(<<|\*)\s*(" + num + r"))?(?![\w.])|(\[\]byte\s*\{[^}]*\})", re.S)

    def val(t):
        t = t.replace("_", "").lower()
        return int(t, 8) if re.fullmatch("0[0-7]+", t) else int(t, 0)

    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ("testdata", ".git", "vendor", "edwards25519")]
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            text = open(os.path.join(d, f), errors="replace").read()
            text = re.sub(r'(?s)import\s*\(.*?\)|import\s+"[^"]*"', "", text, count=1)
            for m in tok.finditer(text):
                q, raw, ch, a, o, b, comp = m.groups()
                if q is not None:
                    try:
                        strs.add(unquote(q))
                    except (ValueError, SyntaxError):
                        pass
                elif raw is not None:
                    strs.add(raw.encode())
                elif ch is not None:
                    try:
                        c = unquote(ch.replace('"', '\\"') if ch == '"' else ch)
                        strs.add(c)
                        if len(c) == 1:
                            ints.add(c[0])
                    except (ValueError, SyntaxError):
                        pass
                elif comp is not None:
                    try:
                        body = comp[comp.index("{") + 1:-1]
                        strs.add(bytes(ord(x.strip()[1]) if x.strip()[0] == "'" else val(x.strip()) for x in body.split(",") if x.strip()))
                    except (ValueError, IndexError):
                        pass
                elif a is not None:
                    try:
                        x, y = val(a), val(b) if b else 0
                        ints.add(x)
                        if o == "<<" and y < 62:
                            ints.add(x << y)
                        elif o == "*":
                            ints |= {y, x * y}
                    except ValueError:
                        pass
    return sorted(x for x in strs if x), sorted(x for x in ints if 0 < x < 1 << 62)


def unquote(q):
    """The bytes of a Go string literal, without the quotes."""
    out, i = b"", 0
    simple = {"n": 10, "r": 13, "t": 9, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, '"': 34, "'": 39}
    while i < len(q):
        if q[i] != "\\":
            out, i = out + q[i].encode(), i + 1
            continue
        c = q[i + 1]
        if c in simple:
            out, i = out + bytes([simple[c]]), i + 2
        elif c == "x":
            out, i = out + bytes([int(q[i + 2:i + 4], 16)]), i + 4
        elif c in "uU":
            n = 4 if c == "u" else 8
            out, i = out + chr(int(q[i + 2:i + 2 + n], 16)).encode(), i + 2 + n
        else:
            out, i = out + bytes([int(q[i + 1:i + 4], 8)]), i + 4
    return out
