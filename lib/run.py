"""Runs the engines of a check, watches how each ends, gathers what they observed."""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
import build, source
from plan import PLAN, RULES

VERIF = build.VERIF
CRASHES = {signal.SIGABRT, signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


class Undecided(Exception):
    pass


class Violation(Exception):
    def __init__(self, record):
        super().__init__(record.get("message", ""))
        self.record = record


def known_findings():
    r = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l)
                if m:
                    r.append(m.groups())
    except OSError:
        pass
    return r


class Pool:
    """Runs commands, a few at a time, until one of them shows a violation."""

    def __init__(self, ctx, width=8):
        self.ctx, self.width = ctx, width
        self.stop = threading.Event()
        self.procs, self.lock = set(), threading.Lock()

    def spawn(self, cmd, env=None, stdin=None, stdout=subprocess.PIPE, timeout=None, cwd=None):
        """(returncode or None when stopped, stdout, stderr)"""
        with self.lock:
            if self.stop.is_set():
                return None, b"", b""
            p = subprocess.Popen(cmd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                                 stdout=stdout, stderr=subprocess.PIPE, start_new_session=True, cwd=cwd or self.ctx.dir)
            self.procs.add(p)
        try:
            o, e = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.kill(p)
            o, e = p.communicate()
            return -signal.SIGKILL, o or b"", (e or b"") + b"\n[stopped after %d s]" % timeout
        finally:
            with self.lock:
                self.procs.discard(p)
        if self.stop.is_set():
            return None, o or b"", e or b""
        return p.returncode, o or b"", e or b""

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def halt(self):
        self.stop.set()
        with self.lock:
            for p in list(self.procs):
                self.kill(p)

    def run(self, jobs):
        """jobs: functions of no argument; the first Violation wins, then the first Undecided."""
        undecided = None
        with concurrent.futures.ThreadPoolExecutor(self.width) as ex:
            fs = [ex.submit(j) for j in jobs]
            viol = None
            for f in concurrent.futures.as_completed(fs):
                try:
                    f.result()
                except concurrent.futures.CancelledError:
                    pass
                except Violation as v:
                    if viol is None:
                        viol = v
                        self.halt()
                        for g in fs:
                            g.cancel()
                except Undecided as u:
                    undecided = undecided or u
        if viol:
            raise viol
        if undecided:
            raise undecided


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="bc-%s-" % prop)
        self.pool = Pool(self)
        self.known = known_findings()
        self.engines, self.counts, self.findings, self.samples = [], {}, {}, []
        self.evals, self.notes, self.keys = 0, [], []
        self.lock = threading.Lock()
        self.extra = {}
        self.distinct = 0
        self.n = 0
        self.dict = os.path.join(self.dir, "dict.json")
        with open(self.dict, "w") as f:
            json.dump(source.dictionary(), f)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def job_seed(self, k):
        return (self.seed * 1_000_003 + k * 7919) % (1 << 62)

    def built(self, jobs):
        """Builds; a failure is an error of the check (the code does not compile, or the sandbox)."""
        res = build.several(jobs)
        for e in res.values():
            if isinstance(e, build.BuildError):
                self.outside(e)
                raise Undecided("%s\n%s" % (e, e.text[-3000:]))
        return res

    def outside(self, e):
        """The monitors use the crate as any program does. Where the crate builds and such a program does
        no more, because of what this property is about, then the property is what that program lost."""
        if "could not compile `barcoders`" in e.text or not any("could not compile `%s`" % n in e.text for n in ("bcsut", "bcmon", "bcprobe")):
            return
        f = ("std", "ascii", "json", "svg", "image")
        try:
            bad = build.surface(f)
        except build.BuildError:
            return
        if bad and self.prop in build.surface_subjects(bad):
            raise Violation(dict(flavour="surface", features=list(f), mode="dev", replay_case=dict(features=list(f), mode="dev"),
                                 message="a program that uses what this property is about compiled and does no more: " + first_lines(bad, "error")))

    def absorb(self, name, j, wall, **more):
        with self.lock:
            e = dict(engine=name, evaluations=j.get("evals", 0), distinct=j.get("distinct", 0), ended=j.get("ended"), wall_s=round(wall, 1))
            e.update(more)
            self.engines.append(e)
            self.evals += j.get("evals", 0)
            for k, v in j.get("counts", {}).items():
                self.counts[k] = self.counts.get(k, 0) + v
            for k, v in j.get("findings", {}).items():
                self.findings[k] = self.findings.get(k, 0) + v
            for s in j.get("samples", []):
                if len(self.samples) < 400:
                    self.samples.append(s)
            for k in ("worst_peak_per_mille", "worst_total_per_mille"):
                if j.get(k):
                    self.extra[k] = max(self.extra.get(k, 0), j[k])

    # ---- the monitors

    def sigs(self):
        return ",".join(sorted({s for p, s, _ in self.known if p == self.prop or self.prop in ("C21", "C22")}))

    def bcmon(self, flavour, exe, mode, k, args, env=None, limit=True):
        """One run of the monitors: a job."""
        def job():
            if self.pool.stop.is_set():
                return
            out, keys = self.path("out.json"), self.path("keys")
            cmd = [exe, mode, "--prop", self.prop, "--seed", str(self.job_seed(k)), "--dict", self.dict, "--out", out, "--keys", keys]
            if self.sigs():
                cmd += ["--known", self.sigs()]
            if not limit:
                cmd += ["--nolimit", "1"]
            if flavour in ("asan", "tsan"):
                cmd += ["--hang", "600"]
            cmd += args
            name = "%s %s" % (flavour, " ".join([mode] + args))
            t = time.time()
            rc, o, e = self.pool.spawn(cmd, env=env or build.base_env(), timeout=3000 if self.deep else 250 if mode == "case" else 600)
            wall = time.time() - t
            if rc is None:
                return
            if rc == 0:
                j = load(out)
                self.absorb(name, j, wall)
                with self.lock:
                    self.keys.append(keys)
                return
            if rc == 10:
                j = load(out)
                self.violated(flavour, j["violation"]["case"], j["violation"]["message"], mode=" ".join(cmd[1:]))
            self.ended_badly(flavour, name, rc, e, cmd, env, out, mode)
        return job

    def violated(self, flavour, case, message, **more):
        raise Violation(dict(flavour=flavour, replay_case=case, message=message, **more))

    def ended_badly(self, flavour, name, rc, err, cmd, env, out, mode=""):
        """The monitors were ended by something other than themselves: by the code under test?"""
        text = err.decode("utf8", "replace")
        wide = mode == "case" and '"wide"' in name
        if wide and "[stopped after" in text:
            self.note("%s: too slow to tell" % name)
            return
        if mode == "case" and '"vast"' in name and (rc == -9 or "[stopped after" in text):
            self.note("%s: more than this machine can do" % name)
            return
        san = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ERROR: LeakSanitizer|panicked|stack overflow|SUMMARY).*", text)
        crash = rc < 0 and -rc in CRASHES or flavour in ("tsan", "asan") and re.search(r"(Thread|Address|Leak)Sanitizer", text)
        if not crash:
            raise Undecided("%s ended with %d: %s" % (name, rc, text[-1500:]))
        if "memory allocation of" in text and self.prop not in ("C13", "C16", "C24") and flavour != "asan":
            # Not what this property is about, and the limit is ours.
            self.note("%s: %s" % (name, text.strip().splitlines()[-1][:200]))
            if wide:
                # Billions of modules take memory in a way that is nobody's business here.
                return
            raise Undecided("%s ran out of memory: %s" % (name, text[-300:]))
        trace = self.path("trace")
        rc2, _, e2 = self.pool.spawn(cmd + ["--trace", trace], env=env or build.base_env(), timeout=900)
        if rc2 is None:
            return
        if rc2 == 10:
            j = load(out)
            self.violated(flavour, j["violation"]["case"], j["violation"]["message"])
        if rc2 == 0:
            if flavour == "tsan":
                # A race once seen is a race, whatever the schedule of the second run was.
                self.violated(flavour, dict(command=cmd), first_lines(text, "Sanitizer"))
            raise Undecided("%s ended with %d, but not when repeated: %s" % (name, rc, text[-1500:]))
        t2 = e2.decode("utf8", "replace")
        case = load(trace)
        what = first_lines(t2, "Sanitizer") or "ended by signal %d: %s" % (-rc2, t2.strip()[-500:])
        # Alone?
        f = self.path("case.json")
        with open(f, "w") as h:
            json.dump(case, h)
        rc3, _, e3 = self.pool.spawn([cmd[0], "case", "--prop", self.prop, "--file", f] + (["--nolimit", "1"] if "--nolimit" in cmd else []),
                                     env=env or build.base_env(), timeout=900)
        self.violated(flavour, case, what, alone="the same when run alone" if rc3 not in (0, None) else "not when run alone", command=" ".join(cmd[1:]))

    def fuzz(self, exe, k, seconds, confirm):
        """A coverage-guided run: a job. confirm: the monitors in which to shrink what it finds."""
        def job():
            if self.pool.stop.is_set():
                return
            out, keys = self.path("out.json"), self.path("keys")
            d = self.path("fuzz")
            os.makedirs(d)
            env = build.base_env(BCFUZZ_PROP=self.prop, BCFUZZ_OUT=out, BCFUZZ_DICT=self.dict, BCFUZZ_KEYS=keys)
            if self.sigs():
                env["BCFUZZ_KNOWN"] = self.sigs()
            cmd = [exe, d, "-max_total_time=%d" % seconds, "-seed=%d" % (self.job_seed(k) % (1 << 31) + 1), "-use_value_profile=1",
                   "-len_control=20", "-max_len=600", "-rss_limit_mb=6000", "-malloc_limit_mb=100000", "-timeout=100",
                   "-print_final_stats=1", "-artifact_prefix=%s/art-" % d]
            t = time.time()
            rc, o, e = self.pool.spawn(cmd, env=env, timeout=seconds + 400)
            wall = time.time() - t
            if rc is None:
                return
            text = e.decode("utf8", "replace")
            if rc == 0:
                cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", text)
                tot = re.search(r"Loaded \d+ PC tables \((\d+)", text) or re.search(r"Loaded \d+ modules\s+\((\d+)", text)
                more = dict(covered_edges=int(cov[-1][0]), features=int(cov[-1][1]), corpus=int(cov[-1][2])) if cov else {}
                if tot:
                    more["edges"] = int(tot.group(1))
                self.absorb("coverage-guided", load(out), wall, **more)
                with self.lock:
                    self.keys.append(keys)
                shutil.rmtree(d, ignore_errors=True)
                return
            if rc == 10:
                case, msg = (lambda v: (v["case"], v["message"]))(load(out)["violation"])
            else:
                arts = glob.glob(d + "/art-*")
                if not arts:
                    raise Undecided("coverage-guided run ended with %d: %s" % (rc, text[-1500:]))
                r = subprocess.run([confirm, "fromfuzz", "--prop", self.prop, "--file", arts[0], "--dict", self.dict],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                case, msg = json.loads(r.stdout), None
                last = [l for l in text.splitlines() if "ERROR" in l or "SUMMARY" in l]
            f = self.path("case.json")
            with open(f, "w") as h:
                json.dump(case, h)
            rc, _, e = self.pool.spawn([confirm, "case", "--prop", self.prop, "--file", f, "--out", out, "--dict", self.dict] +
                                       (["--known", self.sigs()] if self.sigs() else []), timeout=400)
            if rc == 10:
                v = load(out)["violation"]
                self.violated("checked", v["case"], v["message"], found="coverage-guided")
            if msg is not None:
                self.violated("fuzz", case, msg, found="coverage-guided")
            if rc is not None and rc < 0 and -rc in CRASHES and self.prop in ("C13", "C16", "C24"):
                self.violated("checked", case, "ended by signal %d: %s" % (-rc, e.decode("utf8", "replace")[-500:]), found="coverage-guided")
            self.note("a coverage-guided run ended early (%s); the case it ended on is in order when run by the monitors" % "; ".join(last)[:300])
        return job

    def note(self, s):
        with self.lock:
            self.notes.append(s)

    # ---- the end

    def evidence(self, violations):
        union = {}
        if self.keys:
            exe = next((p for p in glob.glob(os.path.join(build.OUT, "*", "*", "bcmon")) if os.access(p, os.X_OK)), None)
            if exe:
                r = subprocess.run([exe, "union", "--files", ",".join(self.keys)], stdout=subprocess.PIPE)
                if r.returncode == 0:
                    union = json.loads(r.stdout)
        distinct = union.pop("", 0) + self.distinct
        step = max(1, len(self.samples) // 10)
        cov = dict(evaluations=self.evals, distinct_nontrivial=distinct, rule=RULES[self.prop],
                   samples=self.samples[::step][:12], observed=self.counts, distinct_points=union, engines=self.engines)
        cov.update(self.extra)
        if self.findings:
            cov["known_findings_observed"] = self.findings
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=PLAN[self.prop].get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return ev

    def close(self):
        self.pool.halt()
        shutil.rmtree(self.dir, ignore_errors=True)


def load(p):
    try:
        with open(p) as f:
            return json.load(f)
    except (OSError, ValueError) as e:
        raise Undecided("no result in %s: %s" % (p, e))


def first_lines(text, mark):
    l = text.splitlines()
    for i, s in enumerate(l):
        if mark in s:
            return "\n".join(l[i:i + 30])[:3000]
    return ""


def check(prop, tier, seed):
    if prop not in PLAN or tier not in ("quick", "thorough"):
        print("no such check: %s %s" % (prop, tier))
        return 2
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    ctx = Context(prop, tier, seed)
    try:
        try:
            PLAN[prop]["run"](ctx)
        except Violation as v:
            rec = dict(property=prop, tier=tier, seed=seed, **v.record)
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            p = os.path.join(VERIF, "replay", "%s-%s-%d-%d.json" % (prop, tier, seed, os.getpid()))
            with open(p, "w") as f:
                json.dump(rec, f, indent=1)
            ctx.evidence(1)
            case = json.dumps(rec.get("replay_case"))
            print("%s: %s" % (prop, rec.get("message", "")[:1500]))
            print("case (%s): %s" % (rec.get("flavour"), case[:600] + ("..." if len(case) > 600 else "")))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        if ctx.evals == 0:
            raise Undecided("nothing was observed")
        e = ctx.evidence(0)
        for p, s, what in ctx.known:
            if p == prop and ctx.findings.get(s):
                print("KNOWN-FINDING: property=%s %s (%s, seen %d times)" % (p, what, s, ctx.findings[s]))
        for s in ctx.findings:
            if (prop, s) not in [(p, x) for p, x, _ in ctx.known] and prop not in ("C21", "C22"):
                raise Undecided("the monitors report a finding that is not listed: " + s)
        print("%s held: %d evaluations, %d distinct, %.0f s" % (prop, e["coverage"]["evaluations"], e["coverage"]["distinct_nontrivial"], e["wall_s"]))
        return 0
    except Undecided as u:
        ctx.evidence(0)
        print("%s: no answer: %s" % (prop, u))
        return 2
    finally:
        ctx.close()


def replay(path):
    rec = load(path)
    prop = rec["property"]
    image = PLAN[prop]["image"]
    ctx = Context(prop, "quick", rec.get("seed", 1))
    try:
        fl, case = rec.get("flavour"), rec.get("replay_case")
        if fl not in ("checked", "release", "asan", "tsan", "fuzz") or not isinstance(case, dict) or "case" not in case:
            print("not a single case; run: check.py %s %s with VERIF_SEED=%s" % (prop, rec.get("tier"), rec.get("seed")))
            print(rec.get("message"))
            return 2
        exe = {"checked": lambda: build.mon(image, "checked"), "fuzz": lambda: build.mon(image, "checked"),
               "release": lambda: build.mon(image, "release"), "asan": build.asan, "tsan": build.tsan}[fl]()
        f = ctx.path("case.json")
        with open(f, "w") as h:
            json.dump(case, h)
        env = build.base_env(**SAN_ENV)
        cmd = [exe, "case", "--prop", prop, "--file", f, "--dict", ctx.dict] + (["--nolimit", "1"] if fl in ("asan", "tsan") else [])
        if ctx.sigs():
            cmd += ["--known", ctx.sigs()]
        r = subprocess.run(cmd, env=env)
        bad = r.returncode != 0
        print("%s: %s" % (prop, "the violation shows again" if bad else "no violation in this case now"))
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if bad else 0
    finally:
        ctx.close()


SAN_ENV = dict(TSAN_OPTIONS="exitcode=66:halt_on_error=1", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0")


def setup():
    import plan
    bad = 0
    for n, r in build.several(plan.all_builds()).items():
        if isinstance(r, build.BuildError):
            print("%s\n%s" % (r, r.text[-2000:]))
            bad = 1
        else:
            print("built", n)
    return bad
