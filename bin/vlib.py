"""Common machinery of the checks: building, running TLC, replaying behaviours on the real code,
validating the recorded executions against the specification, reporting."""
import concurrent.futures, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = os.environ.get("VERIF_SEED", "1") or "1"
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = min(8, os.cpu_count() or 4)


class Infra(Exception):
    """The check could not do its work; never reported as a violation."""


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


START = time.time()


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    return env


class Work:
    """Everything one run of one check needs; removed at the end."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.classes = os.path.join(self.dir, "classes")
        self.states = self.transitions = self.traces = self.events = 0
        self.gen_states = self.mc_states = 0
        self.samples = []
        self.notes = []
        self.rejects = []      # (driver, script, event index, want, events)
        self.mc_runs = []
        self.java_built = False
        self.env = go_env()
        self.drivers = {}
        self.violations = []
        self.known = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------------ build
    def build_java(self):
        if self.java_built:
            return
        os.makedirs(self.classes, exist_ok=True)
        src = [os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java")]
        r = subprocess.run(["javac", "-nowarn", "-cp", TLAJARS, "-d", self.classes] + src, capture_output=True, text=True)
        if r.returncode != 0:
            raise Infra("javac failed:\n" + r.stdout + r.stderr)
        self.java_built = True

    def build_driver(self, name, race=False):
        key = name + ("_race" if race else "")
        if key in self.drivers:
            return self.drivers[key]
        h = os.path.join(VERIF, "harness")
        rep = {os.path.join(REPO, "zzverif/vh/vh.go"): os.path.join(h, "vh", "vh.go")}
        for f in os.listdir(os.path.join(h, name)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "zzverif", name, f)] = os.path.join(h, name, f)
        for f in os.listdir(os.path.join(h, "overlay")):
            pkg = f.rsplit("_export.go", 1)[0].replace("__", "/")
            rep[os.path.join(REPO, pkg, "zz_verif_export.go")] = os.path.join(h, "overlay", f)
        if race:
            # The pools of the standard library order goroutines that only share scratch memory, and so hide data races
            # from the detector: in the race build they keep nothing (which sync.Pool allows).
            root = subprocess.run(["go", "env", "GOROOT"], cwd=REPO, env=self.env, capture_output=True, text=True).stdout.strip()
            for f, put in (("fmt/print.go", "\tppFree.Put(p)\n"), ("math/big/nat.go", "\tstackPool.Put(s)\n")):
                src = os.path.join(root, "src", f)
                text = open(src).read() if os.path.exists(src) else ""
                if put in text:
                    cp = os.path.join(self.dir, f.replace("/", "__"))
                    open(cp, "w").write(text.replace(put, ""))
                    rep[src] = cp
        ov = os.path.join(self.dir, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(self.dir, "driver_" + key)
        cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./zzverif/" + name]
        r = subprocess.run(cmd, cwd=REPO, env=self.env, capture_output=True, text=True)
        if r.returncode != 0:
            raise Infra("go build of the driver %s failed:\n%s" % (name, r.stdout + r.stderr))
        self.drivers[key] = out
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, consts=None, env=None, real=False, workers=NCPU, args=(), timeout=840, heap="6g", invs=None):
        """Runs TLC; returns (stdout, states generated, distinct states). consts are added to the configuration."""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        text = open(os.path.join(SPEC, cfg)).read()
        if consts:
            text += "\nCONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
        if invs:
            text += "\nINVARIANTS " + invs + "\n"
        open(os.path.join(d, "run_.cfg"), "w").write(text)
        cp = (self.classes + ":" if real else "") + TLAJARS
        if real:
            self.build_java()
        e = dict(os.environ, VERIF_SEED=SEED, VERIF_TIER=TIER)
        e.update(env or {})
        # names the modules refer to must exist even where they are not used
        for k in ("TRACES",):
            e.setdefault(k, "/dev/null")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", cp,
               "tlc2.TLC", "-config", "run_.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-nowarning"] + list(args) + [module + ".tla"]
        outp = os.path.join(d, "out")
        with open(outp, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout + 60)
            except subprocess.TimeoutExpired:
                raise Infra("TLC timed out on %s" % module)
        out = self.last_out = open(outp, errors="replace").read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        m2 = re.findall(r"The number of states generated: (\d+)", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (int(m2[-1]), int(m2[-1])) if m2 else (0, 0)
        ok = r.returncode == 0 and ("No error has been found" in out or m2 or "-simulate" in args)
        if not ok:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith(('"@@', "Loading ")))[-3000:]
            raise Infra("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, tail))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return out, gen, dist

    @staticmethod
    def tagged(out, tag):
        res = []
        for line in out.splitlines():
            if line.startswith('"@@' + tag + " "):
                try:
                    s = json.loads(line)
                except ValueError:
                    s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s[len(tag) + 3:]))
        return res

    def mc_fails(self, module, consts, inv):
        """The specification must be violated in this configuration (a check that the invariant is not vacuous)."""
        try:
            self.tlc(module, module + ".cfg", consts, invs=inv)
        except Infra:
            if "Invariant %s is violated" % inv in self.last_out:
                log("model %s %s: violates %s, as it must" % (module, consts, inv))
                self.notes.append("%s with %s violates %s, as it must" % (module, json.dumps(consts), inv))
                return
            raise
        raise Infra("%s %s should violate %s" % (module, consts, inv))

    def mc(self, module, cfg=None, consts=None, real=False, env=None, args=(), min_states=2, timeout=840, name=None, invs=None):
        """Model-checks a configuration of the specification itself."""
        t = time.time()
        out, gen, dist = self.tlc(module, cfg or module + ".cfg", consts, env, real, args=args, timeout=timeout, invs=invs)
        if dist < min_states:
            raise Infra("vacuous model: %s explored %d states" % (module, dist))
        self.states += dist
        self.transitions += gen
        self.mc_states += dist
        self.mc_runs.append({"module": module, "config": name or cfg or module + ".cfg", "constants": consts or {},
                             "distinct_states": dist, "states_generated": gen, "wall_s": round(time.time() - t, 1)})
        log("model %s %s: %d distinct states, %d generated" % (module, consts or "", dist, gen))
        return out

    def generate(self, module, cfg="gen.cfg", consts=None, env=None, real=True, args=(), workers=NCPU, timeout=840, limit=None):
        """Behaviours of the specification, as operation sequences for the drivers."""
        out, gen, dist = self.tlc(module, cfg, consts, env, real, args=args, workers=workers, timeout=timeout)
        scripts = self.tagged(out, "SCRIPT")
        seen, uniq = set(), []
        for s in scripts:
            k = json.dumps(s, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append((k, s))
        uniq.sort(key=lambda x: hashlib.sha256(x[0].encode()).digest())   # an order TLC's scheduling does not affect
        if limit:
            uniq = uniq[:limit]
        if not uniq:
            raise Infra("no behaviours generated by %s" % module)
        self.states += dist
        self.transitions += gen
        self.gen_states += dist
        log("%s: %d behaviours from %d states" % (module, len(uniq), dist))
        return [{"tid": i + 1, "ops": s} for i, (_, s) in enumerate(uniq)]

    # ------------------------------------------------------------------ real code
    def _run_shard(self, exe, scripts, tag, env, mem, timeout):
        """Runs a list of scripts in one driver process, in order; survives crashes of the process."""
        traces, todo = {}, list(scripts)
        n = 0
        while todo:
            n += 1
            inp = os.path.join(self.dir, "%s_%d.in" % (tag, n))
            outp = os.path.join(self.dir, "%s_%d.out" % (tag, n))
            with open(inp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            def lim():
                if mem:
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            e = dict(self.env, VERIF_SEED=SEED, VH_WORKERS="1", GOMAXPROCS=env.get("GOMAXPROCS", "2"), GOTRACEBACK="single")
            e.update(env)
            try:
                r = subprocess.run([exe, inp, outp], env=e, capture_output=True, text=True, errors="replace",
                                   preexec_fn=lim, timeout=timeout)
                rc, err = r.returncode, r.stderr[-3000:]
            except subprocess.TimeoutExpired:
                raise Infra("driver timed out (%s)" % tag)
            done = {}
            if os.path.exists(outp):
                for line in open(outp):
                    try:
                        t = json.loads(line)
                        done[t["tid"]] = t
                    except ValueError:
                        pass
            if rc == 3:
                raise Infra("driver refused its input: " + err)
            traces.update(done)
            rest = [s for s in todo if s["tid"] not in done]
            if rc == 0 and rest:
                raise Infra("driver lost scripts")
            if rc == 0:
                break
            if not rest:
                raise Infra("driver failed at exit (%d): %s" % (rc, err))
            # the process died in the first unfinished script
            bad = rest[0]
            # (a data race is a fact, also if another schedule does not show it)
            if len(todo) == 1 or rc == 66:
                traces[bad["tid"]] = {"tid": bad["tid"], "events": [dict(bad["ops"][-1], res={"crash": True}, index=len(bad["ops"]))],
                                      "crash": err[-1500:]}
                if len(todo) == 1:
                    break
                todo = rest[1:]
                continue
            # run it alone to be sure, then go on with the others
            alone = self._run_shard(exe, [bad], tag + "_c%d" % bad["tid"], env, mem, timeout)
            traces.update(alone)
            todo = rest[1:]
            if n > 40:
                raise Infra("driver crashes too often: " + err)
        return traces

    def replay(self, driver, scripts, env=None, mem=None, timeout=780, race=False, procs=NCPU):
        exe = self.build_driver(driver, race)
        env = env or {}
        shards = [scripts[i::procs] for i in range(procs)]
        traces = {}
        tag = "run%d_%s" % (len(os.listdir(self.dir)), driver)
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            fs = [ex.submit(self._run_shard, exe, sh, "%s_%d" % (tag, i), env, mem, timeout) for i, sh in enumerate(shards) if sh]
            for f in fs:
                traces.update(f.result())
        if len(traces) != len(scripts):
            raise Infra("driver returned %d traces for %d scripts" % (len(traces), len(scripts)))
        return [traces[s["tid"]] for s in scripts]

    # ------------------------------------------------------------------ validation
    def _validate(self, module, cfg, consts, traces, env=None, workers=NCPU, depth=0):
        crashed = [t for t in traces if "crash" in t]
        good = [t for t in traces if "crash" not in t]
        rejects = [{"tid": t["tid"], "l": t["events"][-1]["index"], "want": "the process must survive", "crash": t["crash"]} for t in crashed]
        dist = gen = 0
        if good:
            f = os.path.join(self.dir, "traces_%d.ndjson" % len(os.listdir(self.dir)))
            with open(f, "w") as fh:
                for t in good:
                    fh.write(json.dumps(t) + "\n")
            e = dict(env or {}, TRACES=f)
            try:
                out, gen, dist = self.tlc(module, cfg, consts, e, real=True, workers=workers)
            except Infra as err:
                # an answer the specification has no clause for (a missing part, say) is not one it allows
                m = re.findall(r"^/\\ t = (\d+)$", self.last_out, re.M)
                if "evaluating the nested" not in self.last_out or not m or depth > 8:
                    raise
                bad = good[int(m[-1]) - 1]
                log("no clause for an answer in execution %d: %s" % (bad["tid"], str(err)[-300:].replace("\n", " ")))
                lm = re.findall(r"^/\\ l = (\d+)$", self.last_out, re.M)
                rejects.append({"tid": bad["tid"], "l": int(lm[-1]) + 1 if lm else 1, "want": "an answer the specification has a clause for"})
                r2, g2, d2 = self._validate(module, cfg, consts, [t for t in good if t is not bad], env, workers, depth + 1)
                return rejects + r2, g2, d2
            rej = {}
            for r in self.tagged(out, "REJECT"):
                rej.setdefault(r["tid"], r)
            rejects += list(rej.values())
            # every event of every accepted trace must have been consumed
            expect = sum((len(t["events"]) + 1) for t in good if t["tid"] not in rej)
            expect += sum(rej[t["tid"]]["l"] + 1 for t in good if t["tid"] in rej)
            if dist != expect:
                raise Infra("trace validation of %s consumed %d states instead of %d" % (module, dist, expect))
        return rejects, gen, dist

    def validate(self, driver, module, scripts, traces, cfg="trace.cfg", consts=None, env=None, replay_env=None, mem=None,
                 race=False, what=None, workers=NCPU):
        """Checks the recorded executions against the specification; rejected ones are re-run once to confirm."""
        rejects, gen, dist = self._validate(module, cfg, consts, traces, env, workers)
        self.states += dist
        self.transitions += gen
        self.traces += len(traces)
        self.events += sum(len(t["events"]) for t in traces)
        bytid = {s["tid"]: s for s in scripts}
        trace = {t["tid"]: t for t in traces}
        for t in traces[:: max(1, len(traces) // 3)][:3]:
            self.samples.append({"driver": driver, "trace": shorten(t)})
        log("%s: %d executions, %d events validated, %d rejected" % (module, len(traces), sum(len(t["events"]) for t in traces), len(rejects)))
        if rejects:
            # the drivers are deterministic, so that a rejected execution can be shown again; where it depends on the
            # schedule, the recorded execution itself is the evidence
            again = [bytid[r["tid"]] for r in rejects[:12]]
            shown, t2 = [], []
            for _ in range(3 if race else 2):
                t2 = self.replay(driver, again, env=replay_env, mem=mem, race=race)
                shown, _, _ = self._validate(module, cfg, consts, t2, env, workers)
                if shown:
                    break
            if not shown:
                ids = {s["tid"] for s in again}
                shown = [r for r in rejects if r["tid"] in ids and not starved(trace[r["tid"]])]
                t2 = traces
                if not shown:
                    raise Infra("the driver was starved: %s" % json.dumps(rejects[:3])[:2000])
            t2 = {t["tid"]: t for t in t2}
            for r in shown:
                self.rejects.append({"driver": driver, "module": module, "script": bytid[r["tid"]], "event": r["l"],
                                     "want": r["want"], "crash": r.get("crash"), "trace": t2[r["tid"]]})
        return rejects

    def conform(self, driver, module, scripts, **kw):
        renv = kw.pop("replay_env", None)
        mem = kw.pop("mem", None)
        race = kw.pop("race", False)
        traces = self.replay(driver, scripts, env=renv, mem=mem, race=race)
        self.validate(driver, module, scripts, traces, replay_env=renv, mem=mem, race=race, **kw)
        return traces

    # ------------------------------------------------------------------ result
    def finish(self):
        known = load_known(self.prop)
        viol = []
        for r in self.rejects:
            sig = signature(r)
            k = next((k for k in known if k["sig"] in sig), None)
            if k:
                if k not in self.known:
                    self.known.append(k)
            else:
                viol.append((sig, r))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]), flush=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(SEED),
              "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_validated": self.events,
                           "model_states": self.mc_states, "generator_states": self.gen_states,
                           "model_runs": self.mc_runs, "notes": self.notes,
                           "samples": self.samples[:8]},
              "wall_s": round(time.time() - START, 1), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, (sig, r) in enumerate(viol[:5]):
                p = os.path.join(VERIF, "replays", "%s_%d.json" % (self.prop, i + 1))
                json.dump({"property": self.prop, "seed": SEED, "signature": sig, **r}, open(p, "w"), indent=1)
                print("  rejected: %s" % sig[:400])
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            return 1
        print("OK property=%s traces=%d states=%d wall=%.1fs" % (self.prop, self.traces, self.states, time.time() - START), flush=True)
        return 0


def starved(t):
    """The execution ended for lack of time or memory, which the machine can be responsible for."""
    last = t["events"][-1]["res"] if t["events"] else {}
    return bool(last.get("hang")) or "cannot allocate" in t.get("crash", "") or t.get("crash") == ""


def shorten(x, n=300):
    s = json.dumps(x)
    if len(s) < 1500:
        return x
    return s[:1500] + "..."


def signature(r):
    ev = r["trace"]["events"]
    i = min(r["event"], len(ev)) - 1
    return json.dumps({"event": ev[i] if ev else None, "want": r["want"]}, sort_keys=True)


def load_known(prop):
    """known_findings.txt: 'finding: property=C.. sig=<text of the event> ::: <what fails>'; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) sig=(.*) ::: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append({"sig": m.group(2), "text": m.group(3)})
    return res


def main(prop, fn):
    w = Work(prop)
    try:
        fn(w)
        rc = w.finish()
    except Infra as e:
        print("ERROR: %s: %s" % (prop, e), flush=True)
        if w.rejects:          # a violation seen before the failure counts
            rc = w.finish() or 2
        else:
            rc = 2
    finally:
        w.close()
    sys.exit(rc)
