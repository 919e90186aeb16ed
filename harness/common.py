"""Shared machinery: TLC/Quint runners, trace batches, evidence, violations."""
import contextlib, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Violation(Exception):
    pass


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        if not m:
            m = re.findall(r"([\d,]+) states generated", out)
            self.generated = int(m[-1].replace(",", "")) if m else 0
            self.distinct = 0
        else:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        self.violated = re.findall(r"Error: Invariant (\S+) is violated", out)
        self.violated += re.findall(r"Error: Action property (.+?) is violated", out)
        self.violated += ["Temporal"] if "Temporal properties were violated" in out else []
        self.violated += ["Deadlock"] if "Deadlock reached" in out else []
        self.ok = rc == 0 and not self.violated
        self.prints = [l for l in out.splitlines() if l.startswith("@@")]

    def last_state(self):
        """Variables of the last state of the counterexample, as text."""
        parts = re.split(r"^State \d+:.*$|^\d+: .*$", self.out, flags=re.M)
        if len(parts) < 2:
            return ""
        blk = re.split(r"\n\s*\n", parts[-1])[0]
        return blk.strip()

    def json_prints(self):
        """Lines printed by PrintT(<<"@@", ToJson(x)>>) or PrintT("@@" \\o json)."""
        res = []
        for line in self.out.splitlines():
            s = line.strip()
            if s.startswith('"@@'):
                res.append(json.loads(json.loads(s)[2:]))
        return res


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + int(pid[1:]))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.counts = [], [], {}
        self.known = load_known(pid)
        self.known_hit = []

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, args=(), timeout=600, heap="4g", expect_ok=None, cfg_text=None):
        """Run TLC on spec/<module>.tla. expect_ok=True: a failing run is a machinery error (a
        design-level check that does not involve the implementation)."""
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        if cfg_text is not None:
            cfg = os.path.join(md, module + ".cfg")
            open(cfg, "w").write(cfg_text)
        else:
            cfg = os.path.join(SPEC, cfg or module + ".cfg")
        e = dict(os.environ)
        for k in ("JAVA_TOOL_OPTIONS",):
            e.pop(k, None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers or 4), "-metadir", md, "-noGenerateSpecTE", "-config", cfg]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on " + module)
        r = TLCResult(p.returncode, p.stdout, time.time() - t)
        shutil.rmtree(md, ignore_errors=True)
        if not r.ok and not r.violated:
            # 12 = safety violation, 13 = liveness, 11 = deadlock; anything else is a spec/tool error
            raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, r.rc, r.out[-6000:]))
        if expect_ok and not r.ok:
            raise MachineryError("design check of %s failed:\n%s" % (module, r.out[-6000:]))
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def design(self, module, cfg=None, **kw):
        """Exhaustive check of the specification itself."""
        r = self.tlc(module, cfg, expect_ok=True, **kw)
        self.notes.append("design %s: %d distinct / %d generated states" % (cfg or module, r.distinct, r.generated))
        return r

    def behaviours(self, module, cfg, num, depth, env=None, **kw):
        """Behaviours generated by TLC -simulate; the spec prints each as JSON at its end."""
        args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        r = self.tlc(module, cfg, env=env, workers=1, args=args, expect_ok=True, **kw)
        return r.json_prints()

    def validate(self, module, traces, cfg=None, describe=None, workers=None, negative=None, env=None, **kw):
        """Validate a batch of recorded traces with spec/<module>.tla.

        The module reads the batch from IOEnv.TRACES; it keeps the position in variables
        ti (trace, 1-based), l (next event) and reports the failing clauses in `bad`
        (invariant Conforms == bad = {}).  negative: a function corrupting a deep copy of one
        trace; the corrupted trace must be rejected (binding check)."""
        if not traces:
            raise MachineryError("empty trace batch for " + module)
        f = self.path("traces_%s_%d.json" % (module, self.traces))
        with open(f, "w") as fh:
            json.dump(traces, fh)
        r = self.tlc(module, cfg, env=dict(env or {}, TRACES=f), workers=workers, **kw)
        n_ev = sum(len(t["ev"]) for t in traces)
        if r.ok:
            if r.distinct < n_ev + len(traces):
                raise MachineryError("%s consumed %d states for %d events" % (module, r.distinct, n_ev))
            self.traces += len(traces)
            self.count("events_validated", n_ev)
            if not self.samples:
                t = traces[0]
                self.samples.append({"cfg": t.get("cfg"), "ev": t["ev"][:6]})
        else:
            st = r.last_state()
            ti = re.search(r"\bti = (\d+)", st)
            l = re.search(r"\bl = (\d+)", st)
            bad = re.search(r"\bbad = (.+?)(?=\n/\\|\Z)", st, re.S)
            ti = int(ti.group(1)) if ti else 0
            l = int(l.group(1)) if l else 0
            tr = traces[ti - 1]
            ev = tr["ev"][l - 2] if 2 <= l <= len(tr["ev"]) + 1 else None
            clause = " ".join(bad.group(1).split()) if bad else r.violated
            msg = "trace %d event %d rejected by %s: %s" % (ti, l - 1, module, clause)
            self.violation(msg, {"module": module, "clause": clause, "event": ev, "cfg": tr.get("cfg"),
                                 "prefix": tr["ev"][:l - 1][-40:], "state": st[:4000]})
        if negative is not None:
            import copy
            bad = negative(copy.deepcopy(traces))
            f2 = self.path("neg_%s_%d.json" % (module, self.traces))
            with open(f2, "w") as fh:
                json.dump(bad, fh)
            s, t = self.states, self.transitions
            r2 = self.tlc(module, cfg, env=dict(env or {}, TRACES=f2), workers=workers, **kw)
            self.states, self.transitions = s, t
            if r2.ok:
                raise MachineryError("binding check: corrupted trace accepted by " + module)
            self.count("corrupted_traces_rejected", 1)
        return r

    # -- Quint -----------------------------------------------------------
    def quint(self, args, timeout=300):
        r = subprocess.run(["quint"] + args, cwd=self.scratch, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr

    def quint_copy(self):
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".qnt"):
                shutil.copy(os.path.join(VERIF, "spec", f), self.scratch)

    def quint_test(self, module):
        """Run the tests of a Quint module (properties of the definitions, over whole sets of inputs)."""
        self.quint_copy()
        rc, out = self.quint(["test", module + ".qnt"])
        if rc or "failed" in out or "passing" not in out:
            raise MachineryError("quint test %s: %s" % (module, out[-2000:]))
        self.notes.append("quint test %s: %s" % (module, re.search(r"(\d+) passing", out).group(0)))

    def quint_simulate(self, module, samples, steps, inv="Inv"):
        """Random behaviours of a Quint machine, checked against its invariant."""
        self.quint_copy()
        rc, out = self.quint(["run", module + ".qnt", "--invariant=" + inv, "--max-samples=%d" % samples, "--max-steps=%d" % steps, "--seed=%d" % self.seed, "--verbosity=1"])
        if rc or "violation" in out.replace("No violation", ""):
            raise MachineryError("quint run %s: %s" % (module, out[-2000:]))
        self.states += samples * steps
        self.transitions += samples * steps
        self.notes.append("quint run %s: %d behaviours of %d steps" % (module, samples, steps))

    def quint_validate(self, module, traces, render, negative):
        """Validate recorded traces with spec/<module>.qnt.in: one deterministic behaviour consumes them all."""
        if not traces:
            raise MachineryError("empty trace batch for " + module)
        self.quint_copy()
        with open(os.path.join(VERIF, "spec", module + ".qnt.in")) as f:
            template = f.read()

        def go(ts, name):
            with open(os.path.join(self.scratch, name), "w") as f:
                f.write(template.replace("@DATA@", render(ts)))
            n = len(ts) - 1 + sum(len(t["ev"]) for t in ts)
            itf = os.path.join(self.scratch, name + ".itf.json")
            rc, out = self.quint(["run", name, "--main=" + module, "--invariant=Conforms", "--max-samples=1", "--max-steps=%d" % n, "--seed=1",
                                  "--verbosity=1", "--out-itf=" + itf], timeout=600)
            if "QNT5" in out or not os.path.exists(itf):
                raise MachineryError("quint run %s: %s" % (module, out[-2000:]))
            num = lambda x: int(x["#bigint"]) if isinstance(x, dict) else int(x)
            with open(itf) as f:
                st = json.load(f)["states"]
            return num(st[-1]["ti"]), num(st[-1]["l"]), st[-1]["bad"], len(st)
        from concurrent.futures import ThreadPoolExecutor
        import copy
        parts = [traces[i:i + 40] for i in range(0, len(traces), 40)]
        with ThreadPoolExecutor(8) as pool:
            fs = [pool.submit(go, ts, "run_%d_%d.qnt" % (self.traces, i)) for i, ts in enumerate(parts)]
            control = pool.submit(go, negative(copy.deepcopy(traces[:8])), "neg_%d.qnt" % self.traces)
            outs = [f.result() for f in fs]
        for ts, (ti, l, bad, n) in zip(parts, outs):
            if bad:
                self.violation("trace %d event %d rejected by %s: %s" % (ti + 1, l, module, bad),
                               {"module": module, "clause": bad, "event": ts[ti]["ev"][l - 1], "trace": ts[ti]})
            if ti != len(ts) - 1 or l != len(ts[-1]["ev"]):
                raise MachineryError("%s stopped at trace %d event %d" % (module, ti, l))
            self.traces += len(ts)
            self.states += n
            self.transitions += n - 1
            self.count("events_validated", sum(len(t["ev"]) for t in ts))
        if not self.samples:
            self.samples.append({"cfg": traces[0].get("cfg"), "ev": traces[0]["ev"][:6]})
        if not control.result()[2]:
            raise MachineryError("binding check: corrupted trace accepted by " + module)
        self.count("corrupted_traces_rejected", 1)

    # -- bookkeeping -----------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, msg, data=None, key=None):
        if key is not None:
            for k in self.known:
                if k["status"] == "finding" and k["key"] == key:
                    if key not in self.known_hit:
                        self.known_hit.append(key)
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                    return
        out = os.path.join(VERIF, "out", self.pid)
        os.makedirs(out, exist_ok=True)
        body = json.dumps({"property": self.pid, "tier": self.tier, "seed": self.seed, "message": msg,
                           "data": data}, indent=1, default=str)
        path = os.path.join(out, "%s.json" % hashlib.sha1(body.encode()).hexdigest()[:12])
        with open(path, "w") as f:
            f.write(body)
        print(msg[:3000], flush=True)
        if isinstance(data, dict) and isinstance(data.get("output"), str):
            print(json.dumps(data.get("job"))[:300], data["output"][-2500:], flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        raise Violation(msg)

    @contextlib.contextmanager
    def driving(self, what):
        """Code under test runs here: an unexpected exception is a violation, not a tool error."""
        try:
            yield
        except (Violation, MachineryError):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            self.violation("unexpected %s while %s: %s" % (type(e).__name__, what, str(e)[:500]), {"traceback": tb})

    def spawn(self, cmd, cwd, env, timeout):
        """(rc or None at a timeout, output). mpi_run.py ends with rc 3 when the code under test raises; anything else
        (a process that did not come up, a signal) is only believed when it happens again."""
        for attempt in range(3):
            p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 text=True, errors="replace", start_new_session=True)
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                import signal
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                return None, out
            if p.returncode in (0, 3):
                break
            print("note: process ended with rc %d (attempt %d): %s" % (p.returncode, attempt + 1, out[-300:]), file=sys.stderr, flush=True)
        return p.returncode, out

    def mpi(self, n, script, args=(), timeout=300, env=None, what=None, key=None):
        """Run harness/<script> on n ranks; failure or hang of the code under test is a violation."""
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e["VERIF_SCRATCH"] = self.scratch
        e["TMPDIR"] = self.scratch
        cmd = ["mpirun", "-n", str(n), "--oversubscribe", sys.executable, "-W", "ignore",
               os.path.join(VERIF, "harness", script)] + [str(a) for a in args]
        rc, out = self.spawn(cmd, self.scratch, e, timeout)
        if rc is None:
            self.violation("%s did not finish on %d ranks (deadlock?)" % (what or script, n), {"output": out[-4000:]}, key=key)
            return None
        if rc:
            self.violation("%s failed on %d ranks (rc %d)" % (what or script, n, rc), {"output": out[-6000:]})
        return out

    def mpi_call(self, n, module, func, /, timeout=300, env=None, known_hang=None, **kw):
        """Results of harness <module>.<func>(**kw) on each of n ranks."""
        self._mpi_n = getattr(self, "_mpi_n", 0) + 1
        out = self.path("mpi_%s_%d" % (func, self._mpi_n))
        if self.mpi(n, "mpi_run.py", [module, func, out, json.dumps(kw)], timeout=timeout, env=env,
                    what="%s.%s" % (module, func), key=known_hang) is None:
            return None
        return [json.load(open("%s.%d" % (out, r))) for r in range(n)]

    def parallel(self, module, func, jobs, timeout=700, workers=8, env=None, what=None):
        """Results of harness <module>.<func>(**job) for each job, each in its own process."""
        from concurrent.futures import ThreadPoolExecutor
        e = dict(os.environ)
        e.update(OMP_NUM_THREADS="1", VERIF_SCRATCH=self.scratch, TMPDIR=self.scratch)
        e.update({k: str(v) for k, v in (env or {}).items()})
        self._par_n = getattr(self, "_par_n", 0) + 1
        base = self.path("par_%s_%d" % (func, self._par_n))

        def one(i):
            d = "%s_%d_dir" % (base, i)
            os.makedirs(d)
            out = "%s_%d" % (base, i)
            cmd = [sys.executable, "-W", "ignore", os.path.join(VERIF, "harness", "mpi_run.py"), module, func, out, json.dumps(jobs[i])]
            rc, o = self.spawn(cmd, d, e, timeout)
            if rc is None:
                return ("timeout", o)
            if rc:
                return ("rc %d" % rc, o)
            with open(out + ".0") as fh:
                r = json.load(fh)
            os.remove(out + ".0")
            return (None, r)
        with ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(one, range(len(jobs))))
        for (err, r), job in zip(res, jobs):
            if err:
                self.violation("%s.%s failed (%s)" % (what or module, func, err), {"job": job, "output": r[-6000:]})
        return [r for _, r in res]

    def evidence(self, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "notes": self.notes, **self.counts}
        level = self.level
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def load_known(pid):
    """known_findings.txt: 'finding: property=C01 key=<key> <what>' or 'fixed: property=C01 <commit> <what>'."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append({"status": "finding", "key": m.group(2), "what": m.group(3)})
    return res


def main(pid, tier, mod):
    ck = Check(pid, tier)
    ck.level = getattr(mod, "LEVEL", "model_checking")
    cwd = os.getcwd()
    rc = 2
    try:
        os.chdir(ck.scratch)
        try:
            mod.run(ck)
            ck.evidence()
            print("OK property=%s %s: %d states, %d traces validated, %.1f s" % (
                pid, tier, ck.states, ck.traces, time.time() - ck.t0))
            rc = 0
        except Violation:
            ck.evidence(violations=1)
            rc = 1
        except MachineryError as e:
            print("MACHINERY ERROR:", e)
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
    finally:
        os.chdir(cwd)
        shutil.rmtree(ck.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
