"""Machinery shared by all checks: build the executors from /repo's working tree, run cases through them, have TLC
judge the recorded executions against the specification, model check the specification, replay its behaviours."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CONFIGS = {
    "default": ["-std=c++17"],
    "pmr": ["-std=c++20", "-DNIMIDI2_PMR_SYSEX_DATA=1"],
    "custom": ["-std=c++17", "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"],
    "checked": ["-std=c++17", "-UNDEBUG"],        # the library's own assertions enabled
    "threads": ["-std=c++17", "-fsanitize=thread", "-pthread"],
}
CXXFLAGS = ["-O1", "-g1", "-DNDEBUG", "-ftrivial-auto-var-init=pattern", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
            "-D_GLIBCXX_SANITIZE_VECTOR=1", "-w"]
BOTH = ("default", "checked")
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """Something of the machinery itself failed: never a verdict."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


class EvalError(ToolError):
    """TLC could not evaluate the specification on its input"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(f"{prop}/{seed}")
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = self.mbt = self.events = 0
        self.mc_runs, self.samples, self.ops, self.bad = [], [], {}, []
        self.assumptions = []
        self.assumptions_extra = []
        self._built = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def build(self, driver, config="default"):
        """An additional configuration that does not compile while the default one does is replaced by the default one
        (compiling in every configuration is none of the properties; the evidence file says so)."""
        key = (driver, config)
        if key not in self._built:
            try:
                self._built[key] = self._build(driver, config)
            except ToolError as e:
                if config == "default":
                    raise
                self._built[key] = self.build(driver)
                self.assumptions_extra.append(f"configuration '{config}' of {driver} did not build; the default one ran instead: {str(e)[:300]}")
        return self._built[key]

    def _build(self, driver, config):
        srcs = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
        srcs.append(os.path.join(HARN, driver + ".cpp"))
        d = os.path.join(self.tmp, "build", driver, config)
        os.makedirs(d, exist_ok=True)
        flags = CXXFLAGS if config != "threads" else [f for f in CXXFLAGS if "anitize" not in f.lower()]
        base = ["g++", *flags, *CONFIGS[config], "-I", os.path.join(REPO, "inc"), "-I", HARN]

        def one(s):
            o = os.path.join(d, os.path.basename(s) + ".o")
            shared = os.path.join(self.tmp, "build", "lib", config, os.path.basename(s) + ".o")
            if s.startswith(REPO):
                o = shared
                if os.path.exists(o):
                    return o
                os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp = f"{o}.{threading.get_ident()}.o"
            r = sh([*base, "-c", s, "-o", tmp])
            if r.returncode:
                raise ToolError(f"build failed: {s}\n{r.stderr.decode()[-4000:]}")
            os.rename(tmp, o)
            return o
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, srcs))
        exe = os.path.join(d, f"{driver}.{threading.get_ident()}")
        r = sh([*base, *objs, "-o", exe])
        if r.returncode:
            raise ToolError("link failed:\n" + r.stderr.decode()[-4000:])
        return exe

    def build_all(self, pairs):
        with ThreadPoolExecutor(len(pairs)) as ex:
            list(ex.map(lambda x: self.build(*x), pairs))

    # -------------------------------------------------------------- execute
    def execute(self, exe, cases, timeout):
        """-> (outputs, failure) ; failure = None | (index of the failing case, description)"""
        inp = "".join(json.dumps(c, separators=(",", ":")) + "\n" for c in cases)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2048",
                   TSAN_OPTIONS="halt_on_error=0 history_size=4")
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        try:
            out, err = p.communicate(inp.encode(), timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            hung = True
        lines = out.split(b"\n")
        whole = lines[:-1]
        outs = [json.loads(l) for l in whole[:len(cases)]]
        if hung:
            return outs, (len(outs), "did not finish")
        if p.returncode == 3:
            raise ToolError(err.decode()[-500:])
        if p.returncode or len(outs) != len(cases):
            return outs, (len(outs), f"died (exit {p.returncode}): " + err.decode(errors="replace")[-3000:])
        return outs, None

    def run_cases(self, driver, config, cases, timeout=200):
        exe = self.build(driver, config)
        step = max(1, (len(cases) + NCPU - 1) // NCPU)
        parts = [cases[i:i + step] for i in range(0, len(cases), step)]
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda p: self.execute(exe, p, timeout), parts))
        outs = []
        for part, (o, fail) in zip(parts, res):
            if fail:
                i, why = fail
                bad = part[i] if i < len(part) else part[-1]
                # confirm: the case alone, else the whole part again
                o2, f2 = self.execute(exe, [bad], min(timeout, 60))
                if not f2:
                    for _ in range(4):          # a race may need several runs to show again
                        o3, f3 = self.execute(exe, part, timeout)
                        if f3:
                            break
                    if not f3:
                        raise ToolError("executor failure did not repeat: " + why)
                    why = f3[1]
                    self.violation(driver, config, part[:i + 1], None, None, why)
                else:
                    self.violation(driver, config, [bad], None, None, f2[1])
                return None
            outs += o
        return outs

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, env=None, timeout=600, workers=None, extra=(), heap="6g"):
        d = tempfile.mkdtemp(dir=self.tmp)
        cfg = os.path.join(d, module + ".cfg")
        open(cfg, "w").write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfg,
               *extra, os.path.join(SPEC, module + ".tla")]
        try:
            r = sh(cmd, env=dict(os.environ, **(env or {})), timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        out = r.stdout.decode(errors="replace")
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if "Invariant" in out and "is violated" in out:
            return "violated", gen, dist, out
        if "Model checking completed. No error has been found." in out or (
                "-simulate" in extra and "Error:" not in out and r.returncode == 0):
            return "ok", gen, dist, out
        out = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Warning")))
        kind = EvalError if "TLC threw an unexpected exception" in out or "Attempted to" in out or "evaluating" in out.lower() else ToolError
        if "OutOfMemory" in out or "StackOverflow" in out:
            kind = ToolError
        raise kind(f"TLC failed on {module}:\n" + out[-3000:] + r.stderr.decode()[-1000:])

    def mc(self, module, consts="", invariants=(), spec="Spec", constraint=None, props=(), timeout=800, heap="8g"):
        """Model check the specification itself (independent of the code)."""
        cfg = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
        if consts:
            cfg += "CONSTANTS\n" + consts + "\n"
        for i in invariants:
            cfg += f"INVARIANT {i}\n"
        for p in props:
            cfg += f"PROPERTY {p}\n"
        if constraint:
            cfg += f"CONSTRAINT {constraint}\n"
        t = time.time()
        v, gen, dist, out = self.tlc(module, cfg, timeout=timeout, heap=heap)
        if v != "ok":
            raise ToolError(f"specification violates its own invariant in {module}:\n" + out[-4000:])
        if dist < 2:
            raise ToolError(f"vacuous model: {module}")
        self.states += dist
        self.transitions += gen
        self.mc_runs.append({"module": module, "constants": consts, "invariants": list(invariants), "properties": list(props),
                             "distinct_states": dist, "states_generated": gen, "wall_s": round(time.time() - t, 1)})
        return out

    def behaviours(self, module, consts, invariants=(), spec="Spec", timeout=800):
        """Behaviours generated by TLC: the module prints every maximal one as a JSON line via PrintT."""
        out = self.mc(module, consts, invariants, spec, timeout=timeout)
        res = []
        for line in out.splitlines():
            if line.startswith('"BEHAVIOUR '):
                res.append(json.loads(json.loads(line)[10:]))
        if not res:
            raise ToolError(f"no behaviours from {module}")
        return res

    # ----------------------------------------------------------- conformance
    def validate(self, module, traces, timeout=600):
        """traces: list of cases of {"o","i","r"}; -> None or (case index, pos, TLC output)"""
        if not traces:
            raise ToolError("no traces")
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=self.tmp, delete=False)
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
        f.close()
        try:
            v, gen, dist, out = self.tlc(module, "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\nCONSTANTS Start <- TheStart\n Step <- TheStep\n",
                                         env={"TRACE": f.name}, timeout=timeout)
        except EvalError as e:
            # the recorded results are not even of the kind the specification speaks about
            if len(traces) == 1:
                return 0, len(traces[0]) - 1, "results of the specified kind; TLC: " + str(e)[-800:]
            half = len(traces) // 2
            r = self.validate(module, traces[:half], timeout)
            if r is None:
                r = self.validate(module, traces[half:], timeout)
                if r is not None:
                    r = (r[0] + half, *r[1:])
            if r is None:
                raise
            return r
        finally:
            os.unlink(f.name)
        if v == "ok":
            want = sum(len(t) + 1 for t in traces)
            if dist != want:
                raise ToolError(f"{module}: {dist} distinct states, {want} expected: the log was not consumed")
            self.states += dist
            self.transitions += gen
            return None
        states = out[out.index("is violated"):]
        last = states[states.rindex("\nState "):] if "\nState " in states else states
        case = int(re.search(r"case = (\d+)", last).group(1))
        pos = int(re.search(r"pos = (\d+)", last).group(1))
        w = re.search(r"/\\ want = (.*?)(?=\n/\\ |\n\n)", last, re.S)
        return case - 1, pos - 1, (w.group(1) if w else last)

    def validate_batches(self, module, traces, timeout, most=150000):
        """the same, not more than so many events a run"""
        i = 0
        while i < len(traces):
            j, n = i, 0
            while j < len(traces) and (j == i or n + len(traces[j]) <= most):
                n += len(traces[j])
                j += 1
            r = self.validate(module, traces[i:j], timeout)
            if r is not None:
                return r[0] + i, *r[1:]
            i = j
        return None

    def conform(self, driver, module, cases, configs=BOTH, timeout=600, xtimeout=200):
        """Run the cases on the code in every configuration; TLC checks the recorded executions."""
        if self.bad:
            return False
        seen, traces, origin = set(), [], []
        self.build_all([(driver, cf) for cf in configs])
        for cf in configs:
            outs = self.run_cases(driver, cf, cases, timeout=xtimeout)
            if outs is None:
                return False
            for c, o in zip(cases, outs):
                t = [{"o": e[0], "i": e[1:], "r": r} for e, r in zip(c, o)]
                if len(o) != len(c):
                    raise ToolError("executor lost events")
                if len(configs) > 1:
                    k = hashlib.md5(json.dumps(t).encode()).digest()
                    if k in seen:
                        self.traces += 1
                        continue
                    seen.add(k)
                traces.append(t)
                origin.append((cf, c))
                for e in c:
                    self.ops[e[0]] = self.ops.get(e[0], 0) + 1
        res = self.validate_batches(module, traces, timeout)
        if res is None:
            self.traces += len(traces)
            self.events += sum(len(t) for t in traces)
            for t in traces[:: max(1, len(traces) // 2)][:2]:
                s = json.dumps(t)
                if len(s) < 1500:
                    self.samples.append(t)
            return True
        i, pos, want = res
        cf, c = origin[i]
        # confirm on a fresh execution of that case alone, else of everything again
        o2 = self.run_cases(driver, cf, [c])
        if o2 is None:
            return False
        t2 = [{"o": e[0], "i": e[1:], "r": r} for e, r in zip(c, o2[0])]
        res2 = self.validate(module, [t2])
        if res2 is None:
            outs = self.run_cases(driver, cf, cases, timeout=xtimeout)
            j = cases.index(c)
            t2 = [{"o": e[0], "i": e[1:], "r": r} for e, r in zip(c, outs[j])]
            res2 = self.validate(module, [t2])
            if res2 is None:
                raise ToolError("rejection did not repeat")
        _, pos, want = res2
        self.violation(driver, cf, [c[:pos + 1]], t2[pos], want, f"rejected by {module} at event {pos + 1}", module)
        return False

    def replay_behaviours(self, driver, behs, configs=BOTH):
        """behs: [{"case": [...events...], "expect": [[results]...]}] produced by TLC from the specification."""
        if self.bad:
            return False
        self.build_all([(driver, cf) for cf in configs])
        for cf in configs:
            outs = self.run_cases(driver, cf, [b["case"] for b in behs])
            if outs is None:
                return False
            for b, o in zip(behs, outs):
                if o != b["expect"]:
                    o2 = self.run_cases(driver, cf, [b["case"]])
                    if o2 is None:
                        return False
                    if o2[0] == b["expect"]:
                        # only after the others: state leaking from one case into the next
                        o3 = self.run_cases(driver, cf, [x["case"] for x in behs])
                        if o3 is None:
                            return False
                        b, o2 = next(((x, [y]) for x, y in zip(behs, o3) if y != x["expect"]), (None, None))
                        if b is None:
                            raise ToolError("disagreement did not repeat")
                    k = next((k for k in range(len(o2[0])) if o2[0][k] != b["expect"][k]), 0)
                    self.violation(driver, cf, [b["case"]], {"o": b["case"][k][0], "i": b["case"][k][1:], "r": o2[0][k]},
                                   json.dumps(b["expect"][k]), "behaviour of the specification not reproduced by the code")
                    return False
            self.mbt += len(behs)
        self.samples.append(behs[len(behs) // 2])
        return True

    # -------------------------------------------------------------- verdicts
    def violation(self, driver, config, cases, got, want, why, module=None):
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.bad) + 1}.json")
        json.dump({"property": self.prop, "driver": driver, "config": config, "module": module, "cases": cases,
                   "observed": got, "specified": want, "why": why}, open(path, "w"), indent=1)
        self.bad.append(path)
        print(f"{self.prop}: {why.splitlines()[0] if why else ''}")
        if got:
            print("  event   :", json.dumps(got)[:600])
            print("  allowed :", str(want)[:600])
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def evidence(self, level, note):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces + self.mbt,
                           "recorded_traces": self.traces, "recorded_events": self.events,
                           "spec_behaviours_replayed": self.mbt,
                           "events_per_operation": self.ops, "model_checking_runs": self.mc_runs,
                           "samples": self.samples[:4] or ["none: stopped at a violation"], "what": note},
              "assumptions": self.assumptions or
              ["the executor in /verif/harness reports faithfully what the public API returned",
               "TLC and its Json module evaluate the specification correctly"] + self.assumptions_extra,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
