"""Which engines decide which property."""
import collections, itertools, json, os, re, shutil, subprocess, threading, time
import build, source
import run as R

TEXT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C17 C18 C19 C20".split()
IMAGE = "C14 C15 C16 C21 C22 C24 C25 C26 C27 C28 C29 C30".split()


def base(ctx, image, quick=(16, 20), thorough=(170, 240), sweep=True, fuzz=True, extra_builds=None, extra_jobs=None,
         flavours=("checked", "release"), plain=True):
    """Sweeps, random cases and coverage-guided cases, in checked and unchecked arithmetic."""
    secs, fsecs = thorough if ctx.deep else quick
    b = {f: (lambda f=f: build.mon(image, f)) for f in flavours}
    if fuzz:
        b["fuzz"] = lambda: build.fuzz(image)
    if plain:
        b["plain"] = lambda: build.mon(image, "plain")
    b.update(extra_builds or {})
    res = ctx.built(b)
    jobs = []
    n = 8 if ctx.deep else 4
    if sweep:
        for i in range(n):
            for f in flavours:
                jobs.append(ctx.bcmon(f, res[f], "sweep", 1, ["--shard", "%d/%d" % (i, n)] + (["--deep"] if ctx.deep else [])))
    k = 4 if ctx.deep else 2
    for i in range(k):
        for x, f in enumerate(flavours):
            jobs.append(ctx.bcmon(f, res[f], "random", 100 + i * 8 + x, ["--seconds", str(secs)]))
    if fuzz:
        for i in range(8 if ctx.deep else 4):
            jobs.append(ctx.fuzz(res["fuzz"], 1000 + i, fsecs, res[flavours[0]]))
    if plain:
        # The longest inputs, and code as nobody optimised it.
        for f in ("plain", "release"):
            jobs.insert(0, ctx.bcmon(f, res[f], "long", 1, ["--deep"] if ctx.deep else []))
        jobs.append(ctx.bcmon("plain", res["plain"], "random", 150, ["--seconds", str(secs * 2 // 3)]))
    for i, c in enumerate(wide(ctx)):
        jobs.insert(i, ctx.bcmon("release", res["release"], "case", 160 + i, ["--json", json.dumps(c), "--hang", "1000"]))
    if ctx.prop == "C16":
        # One after another: each takes gigabytes.
        vast = [ctx.bcmon("release", res["release"], "case", 190 + i, ["--json", json.dumps(dict(case="vast", which=i)), "--hang", "2000", "--nolimit", "1"])
                for i in (range(10) if ctx.deep else (0, 1, 3, 5, 8))]
        jobs.insert(0, lambda: [j() for j in vast])
    if extra_jobs:
        jobs = extra_jobs(res) + jobs
    ctx.pool.run(jobs)
    return res


def wide(ctx):
    """More modules, or larger texts, than 32 bits count."""
    G = 1 << 32
    case = lambda out, n, bars=0: dict(case="wide", out=out, len=n, bars=bars)
    black, white = [0, 0, 0, 255], [255, 255, 255, 255]
    if ctx.prop == "C17":
        svg = dict(gen="svg", height=7, xdim=3, fg=[1, 2, 3, 255], bg=white, xmlns=None)
        return [case(svg, G + 9, 1)] + ([case(dict(svg, xdim=4_000_000_000), 2 * G + 77, 1), case(svg, G - 1), case(svg, G)] if ctx.deep else [])
    if ctx.prop == "C19":
        return [case(dict(gen="ascii", height=h, xdim=x), n) for h, x, n in (
            (1, G, 1), (1, G + 1, 1), (2, G + 3, 2), (G, 0, 1), (G + 1, 0, 3), (G + 2, 1, 1), (G // 2 + 1, 0, 1), (1, G // 2 + 1, 1), (65537, 65537, 1),
            (1, 65537, 65537), (1, 1, G + 5), (2, 1, G), (1, (1 << 63) + 1, 1), ((1 << 63) + 1, 1, 1), ((1 << 64) - 1, 0, 1), (1, (1 << 64) - 1, 2), (3, 1 << 62, 4))]
    if ctx.prop == "C20":
        return [case(dict(gen="json", height=1, xdim=1), n) for n in (G, G + 3, G // 2 + 1)]
    if ctx.prop == "C16":
        return [case(dict(gen=g, height=h, xdim=x, rot=r, fg=black, bg=white), n) for g in ("gif", "png", "webp", "buffer")
                for n, x, h, r in ((G + 5, 1, 1, 0), (G, 1, 2, 1), (3 * G + 1, 2, 1, 3), (G + 1, 4_294_967_295, 1, 2))]
    return []


def text(ctx):
    base(ctx, False)


def image(ctx):
    base(ctx, True)


# ---- C21: histories

def surroundings(ctx):
    """What a call's result must not depend on: (name, changes of the environment, directory, thread) of a process."""
    r = [("main thread", {}, None, "main"), ("while unwinding", {}, None, "unwinding")]
    r.append(("another locale and a narrow terminal", dict(
        LANG="de_DE.UTF-8", LC_ALL="de_DE.UTF-8", LC_NUMERIC="de_DE.UTF-8", LC_CTYPE="de_DE.UTF-8", LANGUAGE="de", COLUMNS="3", LINES="1", TERM="dumb",
        NO_COLOR="1", TZ="Pacific/Kiritimati", HOME="/nonexistent", USER="nobody", CI="true", DEBUG="1", RUST_LOG="trace", RUST_BACKTRACE="full",
        SOURCE_DATE_EPOCH="1", DOCS_RS="1", RUST_MIN_STACK="100000"), "/", "named"))
    r.append(("a third locale", dict(
        LANG="tr_TR.ISO-8859-9", LC_ALL="C", LC_NUMERIC="fr_FR", LC_CTYPE="ja_JP.SJIS", COLUMNS="1", LINES="0", TERM="xterm-256color", CLICOLOR_FORCE="1", TZ="",
        DEBUG="0", PROFILE="release", NUM_THREADS="1", RAYON_NUM_THREADS="1", TMPDIR="/nonexistent", XDG_CACHE_HOME="/nonexistent"), None, "main"))
    r.append(("no environment", None, None, "main"))
    before = []
    if shutil.which("taskset"):
        before += ["taskset", "-c", str(min(os.sched_getaffinity(0)))]
    if shutil.which("prlimit"):
        before += ["prlimit", "--nofile=10", "--stack=16777216"]
    r.append(("one processor, few files, another name", {}, None, "", before + ["bash", "-c", 'exec -a unittest "$0" "$@" 3<&-']))
    # Names of variables in the source, if any.
    with open(ctx.dict) as f:
        d = json.load(f)
    strs = d["new_strs"] + d["strs"]
    names = [v for v in strs if re.fullmatch(r"[A-Za-z][A-Za-z0-9]*(_[A-Za-z0-9]+)*", v) and len(v) >= 3][:200]
    if names:
        values = ["1", "0", "", "true", "3"] + [v for v in d["new_strs"] if "\0" not in v][:8 if ctx.deep else 3]
        for v in values:
            r.append(("variables named in the source set to %r" % v, {n: v for n in names}, None, "main" if v == "1" else ""))
    shim = build.clock()
    if shim is None:
        ctx.note("no other clocks: the shim cannot be built")
    else:
        for n, sh, step in (("20 years on", 20 * 31557600, 0), ("80 years on", 80 * 31557600, 0), ("40 years back", -40 * 31557600, 0),
                            ("before 1970", -70 * 31557600, 0), ("a clock that leaps", 0, 40000)):
            r.append((n, dict(LD_PRELOAD=shim, BC_CLOCK_SHIFT=str(sh), BC_CLOCK_STEP=str(step)), None, ""))
    return r


def digests(ctx, exes):
    """The same calls in different orders in different processes, in different surroundings, give the same results."""
    per = 60 if ctx.deep else 30
    outs = {}
    lock = threading.Lock()

    def one(flavour, order, seed, around=("", {}, None, "")):
        name, change, cwd, place = around[:4]
        before = around[4] if len(around) > 4 else []

        def job():
            out = ctx.path("digest")
            t = time.time()
            env = dict(build.base_env(), **change) if change is not None else {}
            rc, _, e = ctx.pool.spawn(before + [exes[flavour], "digest", "--seed", str(seed), "--order", str(order), "--max", str(per), "--out", out, "--dict", ctx.dict,
                                       "--place", place], env=env, timeout=900, cwd=cwd)
            if rc is None:
                return
            if rc != 0:
                raise R.Undecided("digest ended with %d: %s" % (rc, e[-800:]))
            with open(out) as f:
                lines = f.read().splitlines()
            with lock:
                what = (flavour, "order %d" % order, name)
                first, a = outs.setdefault(seed, (what, lines))
                ctx.engines.append(dict(engine="calls in order %d, process of its own, %s%s" % (order, flavour, ", " + name if name else ""),
                                        evaluations=len(lines), wall_s=round(time.time() - t, 1)))
                ctx.evals += len(lines)
                if a != lines:
                    bad = next(i for i in range(min(len(a), len(lines))) if a[i] != lines[i])
                    raise R.Violation(dict(flavour=flavour, replay_case=None, message="a call's result depends on the order of the calls or on the process: "
                                           "%s and %s differ at call %d: %s" % (first, what, bad, lines[bad][17:700])))
        return job
    jobs = []
    arounds = surroundings(ctx)
    ctx.counts["surroundings"] = len(arounds)
    for s in range(4 if ctx.deep else 1):
        seed = ctx.job_seed(300 + s)
        for order in range(8 if ctx.deep else 4):
            for f in exes:
                jobs.append(one(f, order, seed))
        for i, a in enumerate(arounds):
            jobs.append(one("release" if i % 3 else "checked", (0, 2, 3)[(i + s) % 3], seed, a))
    return jobs


def c21(ctx):
    def extra(res):
        jobs = digests(ctx, {f: res[f] for f in ("checked", "release")})
        for i in range(8 if ctx.deep else 3):
            for f, ops in (("release", 3_000_000 if ctx.deep else 250_000), ("checked", 1_000_000 if ctx.deep else 60_000)):
                case = dict(case="hist", seed=ctx.job_seed(400 + i), ops=ops)
                jobs.append(ctx.bcmon(f, res[f], "case", 400, ["--json", json.dumps(case)]))
        for i in range(8 if ctx.deep else 4):
            case = dict(case="twins", seed=ctx.job_seed(470 + i), n=3_000_000 if ctx.deep else 100_000)
            f = "checked" if i % 4 == 3 else "release"
            jobs.append(ctx.bcmon(f, res[f], "case", 470, ["--json", json.dumps(case)]))
        for which in range(19):
            case = dict(case="bulk", seed=ctx.job_seed(450 + which), which=which, n=(4_000_000 if ctx.deep else 1_100_000) // (8 if which in (17, 18) else 1))
            jobs.append(ctx.bcmon("release", res["release"], "case", 450, ["--json", json.dumps(case)]))
        return jobs
    base(ctx, True, sweep=False, extra_jobs=extra)


# ---- Miri

MIRI_BAD = re.compile(r"error: (Undefined Behavior|.*deadlock|memory leaked|abnormal termination|the evaluated program)[^\n]*")


def interpretable(l):
    """Not for minutes: of the images only small pixel buffers."""
    f = l.split(" ")
    if f[0] == "I":
        return f[1] == "Buffer" and int(f[2]) * int(f[3]) * len(f[7]) <= 1500
    if f[0] == "A":
        return int(f[1]) * int(f[2]) * len(f[3]) <= 20000
    return True


def pick(lines, n, seed, longest):
    """A sample of the probe's lines over all symbologies and generators."""
    kinds = collections.OrderedDict()
    for l in lines:
        if len(l) <= longest and interpretable(l):
            f = l.split(" ")
            kinds.setdefault((f[0], f[1] if f[0] in "S" else ""), []).append(l)
    r, i = [], 0
    while len(r) < n and kinds:
        for k in list(kinds):
            v = kinds[k]
            if not v:
                del kinds[k]
                continue
            r.append(v.pop((seed * 31 + i * 7) % len(v)))
            i += 1
            if len(r) >= n:
                break
    return r


def miri_sweep(deep):
    """Small calls for Miri, one value varied at a time: every value of every channel, every character of every
    symbology, every pair of digits, lengths and sizes from none to past 256."""
    r = []

    def sym(name, d):
        r.append("S %s %s" % (name, d.encode().hex() or "-"))
    for c in range(256):
        k = "%02x%02x%02x" % (c, (c + 85) % 256, (c + 170) % 256)
        r.append("V 1 1 %sff %s%02x - 1" % (k, k[::-1], c))
        if deep or c < 86:      # Each value in one of the channels at least.
            r.append("I Buffer 1 1 %d %s%02x %sff 10" % (c % 4, k, (c + 43) % 256, k[::-1]))
    for n in list(range(18)) + ([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257] if deep else [33, 129, 257]):
        m = ("1101001" * 40)[:n]
        r.append("A 1 1 %s" % (m or "-"))
        r.append("J 1 1 %s" % (m or "-"))
        r.append("V 1 1 000000ff ffffffff - %s" % (m or "-"))
        r.append("I Buffer 1 1 %d 000000ff ffffffff %s" % (n % 4, m or "-"))
        r.append("A %d 1 101" % n)
        r.append("A 1 %d 101" % n)
        r.append("J %d %d 101" % (n, n + 1))
        r.append("V %d %d 0102037f fefdfcff x%s 101" % (n, n + 1, (m.encode().hex() or "-")))
        r.append("I Buffer %d %d %d 010203ff fefdfcff 10" % (1 + n % 7, max(n, 1), n % 4))
        r.append("I Buffer %d 1 %d 010203ff fefdfcff 110" % (max(n, 1), (n + 1) % 4))
        if n > 40 and not deep:
            continue
        for name, a in (("Itf", "0123456789"), ("Stf", "9876543210"), ("Code11", "0123456789-"), ("Usd8", "9-876"), ("Code39", "A-0Z %+$/."),
                        ("Code39Chk", "KLM9. /"), ("Code93", "ZYX%+$0 1"), ("Code128", "\u0181abc~ A")):
            d = (a * 30)[:n]
            sym(name, ("\u0181" + d.replace("\u0181", "z") if name == "Code128" else d))
        sym("Code128", "\u0106" + ("3141592653" * 26)[:n])
        sym("Code128", "\u00c0" + ("AZ09\x1f\x00_ " * 33)[:n])
        sym("Codabar", "A" + ("0123456789-$:/." * 18)[:n] + "D")
        for name in ("Ean13", "Jan", "Bookland", "Upca", "Ean8", "Supp"):
            sym(name, ("4938271605" * 26)[:n])
    for c in range(128):
        ch = chr(c)
        for name in ("Code11", "Code39", "Code39Chk", "Code93", "Stf"):
            if deep or ch.isalnum() or not c % 5 or ch in "$-./+%: *":
                sym(name, ch)
        sym("Codabar", "B" + ch + "C")
        sym("Codabar", ch + "1" + ch)
        for s in ("\u00c0", "\u0181", "\u0106"):
            sym("Code128", s + ch)
    for k in range(100):
        p = "%02d" % k
        sym("Itf", p)
        sym("Code128", "\u0106" + p)
        sym("Supp", p)
        if deep:
            sym("Code93", p)
            sym("Code11", p)
    for pos in range(12):
        for d in "0123456789":
            z = "000000000000"
            v = z[:pos] + d + z[pos + 1:]
            sym("Ean13", v)
            if deep or (pos + int(d)) % 3 == 0:
                sym("Upca", v[:11])
            if pos < 7:
                sym("Ean8", v[:7])
            if pos < 5:
                sym("Supp", v[:5])
    return r


def miri_job(ctx, miri, args, lines, flags, expect=None, what="Miri"):
    """One run of the probe under Miri: a job. expect: the native transcript of the same lines."""
    def job():
        t = time.time()
        rc, o, e = ctx.pool.spawn(miri.cmd(args), env=miri.environ(flags), stdin=("\n".join(lines) + "\n").encode(), timeout=3000 if ctx.deep else 700,
                                  cwd=build.VERIF + "/probe")
        if rc is None:
            return
        err = e.decode("utf8", "replace")
        got = o.decode("utf8", "replace").splitlines()
        m = MIRI_BAD.search(err)
        if m:
            raise R.Violation(dict(flavour="miri", target=miri.target, flags=flags, replay_case=dict(args=args, lines=lines),
                                   message="%s: %s" % (what, R.first_lines(err, m.group(0).strip()))))
        if rc != 0 and "memory exhausted" not in err and "resource exhaustion" not in err:
            raise R.Undecided("%s ended with %d: %s" % (what, rc, err[-1500:]))
        for i, g in enumerate(got):
            if g.startswith("DIFFERENT"):
                raise R.Violation(dict(flavour="miri", target=miri.target, flags=flags, replay_case=dict(args=args, lines=lines),
                                       message="%s: threads got different results of: %s" % (what, lines[i])))
            if expect is not None and g != expect[i] and "absent" not in (g, expect[i]):
                raise R.Violation(dict(flavour="miri", target=miri.target, flags=flags, replay_case=dict(args=args, lines=[lines[i]]),
                                       message="%s gives another result than the native build: %s gave %s, not %s" % (what, lines[i][:300], g[:200], expect[i][:200])))
        with ctx.lock:
            ctx.engines.append(dict(engine="%s %s %s" % (what, " ".join(args), flags), evaluations=len(got), wall_s=round(time.time() - t, 1)))
            ctx.evals += len(got)
            ctx.counts["calls under Miri"] = ctx.counts.get("calls under Miri", 0) + len(got)
    return job


def probe_lines(ctx, exe, per):
    p = ctx.path("lines")
    r = subprocess.run([exe, "inputs", "--seed", str(ctx.job_seed(7)), "--max", str(per), "--out", p, "--dict", ctx.dict], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise R.Undecided("no inputs: %s" % r.stdout[-500:])
    with open(p) as f:
        return f.read().splitlines()


def native(ctx, exe, lines, args=("run",)):
    rc, o, e = ctx.pool.spawn([exe] + list(args), env=build.base_env(), stdin=("\n".join(lines) + "\n").encode(), timeout=900)
    return rc, o.decode("utf8", "replace").splitlines(), e.decode("utf8", "replace")


TEXTF = ("std", "ascii", "json", "svg")
ALLF = TEXTF + ("image",)


def c22(ctx):
    m = build.Miri(features=ALLF)

    def extra(res):
        jobs = []
        lines = probe_lines(ctx, res["release"], 30)
        n = 40 if ctx.deep else 5
        for i in range(n):
            l = pick(lines, 20, ctx.job_seed(i), 160)
            flags = "-Zmiri-seed=%d -Zmiri-preemption-rate=%s -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks" % (
                ctx.job_seed(i) % 100000, ("0.01", "0.05", "0.2", "0.5", "0.9")[i % 5])
            jobs.append(miri_job(ctx, m, ["threads", "3"], l, flags))
        big = [(16, 6, 250), (32, 3, 120), (8, 10, 400), (64, 2, 60), (2, 30, 400), (3, 30, 300)]
        for i in range(len(big) * (4 if ctx.deep else 1)):
            th, ro, ops = big[i % len(big)]
            case = dict(case="threads", seed=ctx.job_seed(500 + i), threads=th, rounds=ro * (6 if ctx.deep else 1), ops=ops)
            jobs.append(ctx.bcmon("release", res["release"], "case", 500, ["--json", json.dumps(case)]))
        hot = [(130, 60), (8, 25), (8, 60), (3, 60), (16, 25), (40, 60), (8, 60), (4, 25), (8, 40), (6, 40), (8, 40), (12, 40), (9, 40), (8, 100)]
        for i in range(len(hot) * (6 if ctx.deep else 1)):
            th, ms = hot[i % len(hot)]
            case = dict(case="hot", seed=ctx.job_seed(520 + i), threads=th, millis=ms * (5 if ctx.deep else 1))
            jobs.append(ctx.bcmon("release", res["release"], "case", 520, ["--json", json.dumps(case)]))
        for i in range(8):
            case = dict(case="first", seed=ctx.job_seed(550 + i), n=6000 if ctx.deep else 400)
            jobs.append(ctx.bcmon("release", res["release"], "case", 550, ["--json", json.dumps(case)]))
        env = build.base_env(**R.SAN_ENV)
        for i in range(4 if ctx.deep else 2):
            jobs.insert(i * 3, ctx.bcmon("tsan", res["tsan"], "random", 600 + i, ["--seconds", "240" if ctx.deep else "20"], env, False))
        th = dict(case="threads", seed=ctx.job_seed(700), threads=8, rounds=20 if ctx.deep else 2, ops=80)
        jobs.insert(0, ctx.bcmon("tsan", res["tsan"], "case", 700, ["--json", json.dumps(th)], env, False))
        return jobs
    base(ctx, True, sweep=False, fuzz=False, plain=False, flavours=("release",), quick=(12, 0), thorough=(300, 0),
         extra_builds=dict(tsan=build.tsan, miri=m.prepare), extra_jobs=extra)


# ---- C24: memory

def c24(ctx):
    m = build.Miri(features=ALLF)

    def extra(res):
        jobs = []
        lines = probe_lines(ctx, res["release"], 60)
        n = 24 if ctx.deep else 4
        for i in range(n):
            l = pick(lines, 60 if ctx.deep else 26, ctx.job_seed(i), 400)
            flags = ("", "-Zmiri-tree-borrows", "-Zmiri-symbolic-alignment-check", "-Zmiri-strict-provenance")[i % 4]
            jobs.append(miri_job(ctx, m, ["run"], l, flags))
        sweep = miri_sweep(ctx.deep)
        parts = 16 if ctx.deep else 6
        for i in range(parts):
            l = sweep[i::parts]
            jobs.insert(0, miri_job(ctx, m, ["run"], l, "-Zmiri-tree-borrows" if ctx.deep and i % 2 else ""))
        for i, f in enumerate(("release", "release", "plain", "checked")):
            case = dict(case="drift", seed=ctx.job_seed(850 + i), n=1_000_000 if ctx.deep else 60_000)
            jobs.append(ctx.bcmon(f, res[f], "case", 850, ["--json", json.dumps(case)]))
        env = build.base_env(**R.SAN_ENV)
        for i in range(8 if ctx.deep else 4):
            jobs.append(ctx.bcmon("asan", res["asan"], "sweep", 1, ["--shard", "%d/%d" % (i, 8 if ctx.deep else 4)], env, False))
        for i in range(2 if not ctx.deep else 6):
            jobs.append(ctx.bcmon("asan", res["asan"], "random", 800 + i, ["--seconds", "200" if ctx.deep else "12"], env, False))
        return jobs
    base(ctx, True, extra_builds=dict(asan=build.asan, miri=m.prepare), extra_jobs=extra)


# ---- C30: errors and values as they show themselves

def c30(ctx):
    # First what keeps the monitors themselves from being built.
    for f, mode in itertools.product((ALLF, TEXTF, ("ascii", "json", "svg"), (), ("std",), ("std", "image")) + (tuple(subsets(TEXTF)) if ctx.deep else ()), ("dev", "release")):
        t = time.time()
        try:
            bad = build.surface(f, mode)
        except build.BuildError as e:
            raise R.Undecided("%s\n%s" % (e, e.text[-3000:]))
        if bad:
            raise R.Violation(dict(flavour="surface", features=list(f), mode=mode, replay_case=dict(features=list(f), mode=mode),
                                   message="with features [%s], profile %s, a program that compiled does no more: %s" % (" ".join(f), mode, R.first_lines(bad, "error"))))
        with ctx.lock:
            ctx.engines.append(dict(engine="a user's program against features [%s], profile %s" % (" ".join(f), mode), evaluations=1, wall_s=round(time.time() - t, 1)))
    base(ctx, True)


# ---- C27: time

def c27(ctx):
    res = ctx.built({f: (lambda f=f: build.mon(True, f)) for f in ("release", "plain")})
    # Not all processors at once: the clock counts CPU time, but caches are shared.
    ctx.pool.width = 5
    jobs = []
    for i in range(4):
        for f in ("release", "plain"):
            for k in range(3 if ctx.deep else 1):
                jobs.append(ctx.bcmon(f, res[f], "sweep", 1 + k, ["--shard", "%d/4" % i]))
    ctx.pool.run(jobs)


# ---- C23: configurations

def subsets(names):
    for n in range(len(names) + 1):
        for s in itertools.combinations(names, n):
            yield s


MIRI_TARGETS = ("s390x-unknown-linux-gnu", "i686-pc-windows-msvc", "aarch64-apple-darwin")


def small(l):
    """A picture of few pixels, for an interpreter."""
    f = l.split(" ")
    return int(f[2]) * int(f[3]) * max(1, len(f[7])) <= 1500 and int(f[2]) <= 200 and int(f[3]) <= 50


def c23(ctx):
    cfgs = collections.OrderedDict()

    def cfg(features, mode, flags=""):
        name = "%s, %s%s" % ("+".join(features) or "no feature", mode, " " + flags if flags else "")
        cfgs[name] = (features, mode, flags)
    cfg(ALLF, "debug")
    for s in subsets(TEXTF):
        cfg(s, "debug")
        cfg(s, "release")
    cfg(("image",), "debug")
    cfg(ALLF, "release")
    cfg(("ascii", "json", "svg", "image"), "release")
    cfg(TEXTF, "release", "-Coverflow-checks=on -Cdebug-assertions=on")
    # Code generated in other ways.
    cfg(TEXTF, "release", "-Cpanic=abort")
    cfg(TEXTF, "release", "-Copt-level=s")
    cfg(("ascii", "json", "svg"), "release", "-Copt-level=1 -Cpanic=abort")
    with open("/proc/cpuinfo") as f:
        avx2 = " avx2 " in f.read()
    if avx2:
        cfg(TEXTF, "release", "-Ctarget-cpu=native")
    if ctx.deep:
        for s in subsets(ALLF):
            cfg(s, "debug")
            cfg(s, "release")
        for fl in ("-Copt-level=s", "-Copt-level=z", "-Copt-level=2", "-Coverflow-checks=on", "-Ccodegen-units=1 -Clto=fat -Cembed-bitcode=yes",
                   "-Ctarget-feature=+sse4.2") + (("-Ctarget-cpu=x86-64-v3",) if avx2 else ()):
            cfg(TEXTF, "release", fl)
            cfg(("ascii", "json", "svg"), "release", fl)
    targets = list(MIRI_TARGETS)
    if ctx.deep:
        targets += ["powerpc-unknown-linux-gnu", "i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "x86_64-unknown-freebsd",
                    "riscv64gc-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf"]
    # Platforms the code names.
    targets += [t for t in source.platforms() if t not in targets][:3]
    # Pictures, too, where bytes are in the other order, and on 32 bits.
    pictures = ("s390x-unknown-linux-gnu", "i686-pc-windows-msvc") if ctx.deep else ("s390x-unknown-linux-gnu",)
    miris = {"miri " + t: build.Miri(t, features=ALLF if t in pictures else TEXTF) for t in targets}
    jobs = {n: (lambda c=c: build.probe(*c)) for n, c in cfgs.items()}
    jobs.update({n: m.prepare for n, m in miris.items()})
    jobs["32-bit, debug"] = lambda: build.probe32("debug")
    jobs["32-bit, release"] = lambda: build.probe32("release")
    jobs["a platform without std"] = build.bare
    jobs["inputs"] = lambda: build.mon(True, "release")
    order = list(miris) + ["32-bit, debug", "32-bit, release", "a platform without std", "inputs"]
    order += [n for n in jobs if n not in order]
    res = build.several({n: jobs[n] for n in order})
    failed = {n: r for n, r in res.items() if isinstance(r, build.BuildError)}
    if failed:
        # Is it the crate, and does it build at all?
        mine = {n: r for n, r in failed.items() if "could not compile `barcoders`" in r.text or "could not compile `bcprobe`" in r.text}
        if mine and len(mine) == len(failed) and len(failed) < len(res):
            n, r = next(iter(mine.items()))
            raise R.Violation(dict(flavour="build", replay_case=dict(configuration=n), message="builds in %d configurations but not in: %s\n%s" % (
                len(res) - len(failed), "; ".join(mine), r.text[-2000:])))
        n, r = next(iter(failed.items()))
        raise R.Undecided("%s: %s\n%s" % (n, r, r.text[-2000:]))
    ctx.evals += len(res)
    ctx.counts["configurations built"] = len(res)
    ctx.engines.append(dict(engine="builds", evaluations=len(res), configurations=list(res)))

    lines = probe_lines(ctx, res["inputs"], 6000 if ctx.deep else 1200)
    ref_name = next(iter(cfgs))
    rc, ref, e = native(ctx, res[ref_name], lines)
    if rc != 0 or len(ref) != len(lines):
        raise R.Undecided("the reference probe ended with %s: %s" % (rc, e[-800:]))
    ctx.distinct = len({l for l, r in zip(lines, ref) if r != "absent"})
    step = max(1, len(lines) // 8)
    ctx.samples = [dict(call=l[:300], result=r[:200]) for l, r in list(zip(lines, ref))[::step]]
    compared = [0]

    def compare(name, got, ls, want):
        c = 0
        for l, g, w in zip(ls, got, want):
            if g == "absent" or w == "absent":
                continue
            c += 1
            if g != w:
                raise R.Violation(dict(flavour="probe", replay_case=dict(configurations=[ref_name, name], line=l),
                                       message="%s: [%s] gives %s, [%s] gives %s" % (l[:400], ref_name, w[:200], name, g[:200])))
        with ctx.lock:
            ctx.evals += c
            compared[0] += c
            ctx.engines.append(dict(engine="run: " + name, evaluations=c))

    # A panic ends some programs: these only get the calls that do not panic elsewhere.
    fine = [(l, r) for l, r in zip(lines, ref) if r != "panic"]

    def run_native(name):
        def job():
            ls, want = ([l for l, _ in fine], [r for _, r in fine]) if "panic=abort" in name else (lines, ref)
            rc, got, e = native(ctx, res[name], ls)
            if rc is None:
                return
            if rc != 0 or len(got) != len(ls):
                i = min(len(got), len(ls) - 1)
                if rc < 0 and -rc in R.CRASHES:
                    raise R.Violation(dict(flavour="probe", replay_case=dict(configurations=[name], line=ls[i][:100_000]),
                                           message="%s: ended by signal %d; [%s] gives %s" % (ls[i][:400], -rc, ref_name, want[i][:200])))
                raise R.Undecided("%s ended with %d: %s" % (name, rc, e[-800:]))
            compare(name, got, ls, want)
        return job

    def run32(name):
        def job():
            ls, want = [l for l, _ in fine], [r for _, r in fine]
            try:
                rc, got, e = native(ctx, res[name], ls)
            except OSError as x:
                ctx.note("%s cannot be run here: %s" % (name, x))
                return
            if rc is None:
                return
            if rc == 101:
                i = len(got) - 1
                raise R.Violation(dict(flavour="probe", replay_case=dict(configurations=[ref_name, name], line=ls[i]),
                                       message="%s: [%s] gives %s, [%s] panics" % (ls[i][:400], ref_name, want[i][:200], name)))
            if rc != 0 or len(got) != len(ls):
                if not got and rc < 0:
                    ctx.note("%s cannot be run here (%d)" % (name, rc))
                    return
                raise R.Undecided("%s ended with %d after %d calls: %s" % (name, rc, len(got), e[-800:]))
            compare(name, got, ls, want)
        return job
    run = [run32("32-bit, debug"), run32("32-bit, release")]
    mi = []
    idx = {l: r for l, r in zip(lines, ref)}
    for n, m in miris.items():
        for i in range(8 if ctx.deep else 4):
            ls = pick([l for l in lines if l[0] != "I"], 100 if ctx.deep else 40, ctx.job_seed(20 + i), 400)
            mi.append(miri_job(ctx, m, ["run"], ls, "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks",
                               [idx[l] for l in ls], "Miri for " + m.target))
        if "image" in m.features:
            for i, f in enumerate(("Gif", "Png", "Webp", "Buffer")):
                ls = [l for l in lines if l.startswith("I " + f + " ") and small(l)]
                n = (60 if ctx.deep else 10) * (4 if f == "Buffer" else 1)
                ls = [ls[(ctx.job_seed(60 + i) + k * 7919) % len(ls)] for k in range(min(n, len(ls)))]
                mi.insert(0, miri_job(ctx, m, ["run"], ls, "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks",
                                      [idx[l] for l in ls], "Miri for " + m.target))
    ctx.pool.run(mi + run + [run_native(n) for n in cfgs if n != ref_name])
    ctx.counts["results compared"] = compared[0]


PLAN = {}
for p in TEXT:
    PLAN[p] = dict(run=text, image=False)
for p in IMAGE:
    PLAN[p] = dict(run=image, image=True)
PLAN["C21"]["run"] = c21
PLAN["C22"]["run"] = c22
PLAN["C24"]["run"] = c24
PLAN["C23"] = dict(run=c23, image=True)
PLAN["C27"]["run"] = c27
PLAN["C30"]["run"] = c30

SPEC = "the independent symbol model in harness/src/spec.rs agrees with the published standards"
for p in "C01 C03 C04 C05 C06 C07 C08 C09 C10 C25".split():
    PLAN[p]["assumptions"] = [SPEC]
for p in "C14 C15 C16".split():
    PLAN[p]["assumptions"] = ["the decoders of the image crate (another code path than its encoders) are right"]
PLAN["C23"]["assumptions"] = ["32-bit execution is native i686 without std; big-endian execution is Miri's"]

COMMON = (" Cases: systematic sweeps (short strings exhaustively, every character at every position, lengths and sizes at boundaries), seeded random cases "
          "using values mined from the source's literals, and coverage-guided cases; distinct by content (hash), counted across processes.")
RULES = {
    "C01": "An EAN-13/UPC-A/EAN-8 number constructed and encoded; non-trivial when the model accepts it, so that all its modules were compared and read back.",
    "C02": "A payload and the ten digits appended to it; non-trivial when all eleven constructions were judged.",
    "C03": "A digit string given to the supplement constructor; non-trivial when the model accepts it or it is a digit string of another length.",
    "C04": "A digit string encoded as ITF; non-trivial when accepted by the model and all modules compared.",
    "C05": "A digit string encoded as STF; non-trivial when accepted by the model and all modules compared.",
    "C06": "A Codabar string; non-trivial when accepted by the model and all modules compared and read back.",
    "C07": "A Code 11 string; non-trivial when accepted by the model and all modules compared and read back.",
    "C08": "A Code 39 string, or a history of flag changes and encodings of one value; non-trivial when accepted and all modules compared.",
    "C09": "A Code 93 string; non-trivial when accepted by the model and all modules compared and read back.",
    "C10": "A Code 128 string; non-trivial when accepted by the model and all modules compared and read back.",
    "C11": "A string given to Code128::new; non-trivial always: acceptance and error kind are judged.",
    "C12": "A string given to a constructor; non-trivial always: acceptance and error kind are judged.",
    "C13": "A string given to a constructor, and the value encoded; non-trivial always: it had to end, and give binary modules.",
    "C14": "Modules and settings given to the PNG, WebP or buffer generator; non-trivial when there is a picture, all of whose pixels were compared.",
    "C15": "Modules and settings given to the GIF generator; non-trivial when there is a picture, all of whose pixels were compared.",
    "C16": "Modules and settings given to an image generator; non-trivial always: the outcome and the size are judged.",
    "C17": "Modules and settings given to the SVG generator; non-trivial always: the document is parsed and painted.",
    "C18": "Settings, namespace and modules given to the SVG generator; non-trivial always: the document is parsed strictly.",
    "C19": "Modules, height and X dimension given to the ASCII generator; non-trivial always: the picture is compared.",
    "C20": "Modules, height and X dimension given to the JSON generator; non-trivial always: the text is parsed strictly and compared.",
    "C21": "A history of calls on up to dozens of live values; distinct: by seed and length. Every call's result is compared with the model and with earlier results.",
    "C22": "A concurrent run of several threads making calls on shared and private values; distinct: observed pairs of overlapping calls and runs. Every result is compared.",
    "C23": "A call made in a build; distinct: calls that the reference build has; non-trivial when two builds have it and the results were compared.",
    "C24": "A call, observed at the allocator and by the sanitizers; non-trivial always.",
    "C25": "A symbology, data, generator and settings; non-trivial when the data are accepted and the bars were read back from the output and decoded.",
    "C26": "A shorthand constructor, builder sequence or alias; non-trivial always: the output is compared with that of the spelled-out form.",
}
RULES["C27"] = ("A kind of call (symbology, generator, texture and shape of the argument) timed at two sizes, or early and late in a process; "
                "non-trivial when both times were taken.")
RULES["C28"] = ("A value built from a public variant or changed through public parts, an argument in another type, or the public tables; non-trivial when in "
                "the domain: results are compared with the constructor's, or with those of a fresh value.")
RULES["C29"] = ("A call made in a thread sealed by a system call filter; non-trivial always: trapped system calls, the panic hook, the environment, "
                "the locale, unflushed output and threads left behind are looked at after each.")
RULES["C30"] = ("A failed call's error, or a value or generator, shown, copied, compared and boxed; non-trivial when there was an error or a value of moderate size.")
for p in RULES:
    if p not in ("C21", "C22", "C23", "C27"):
        RULES[p] += COMMON


def all_builds():
    b = {"%s %s" % (i, m): (lambda i=i, m=m: build.mon(i, m)) for i in (False, True) for m in ("checked", "release")}
    b["text plain"] = lambda: build.mon(False, "plain")
    b["image plain"] = lambda: build.mon(True, "plain")
    b["fuzz text"] = lambda: build.fuzz(False)
    b["fuzz image"] = lambda: build.fuzz(True)
    b["asan"], b["tsan"] = build.asan, build.tsan
    b["miri"] = build.Miri(features=ALLF).prepare
    for t in MIRI_TARGETS:
        b["miri " + t] = build.Miri(t).prepare
    b["32-bit debug"] = lambda: build.probe32("debug")
    b["32-bit release"] = lambda: build.probe32("release")
    b["bare"] = build.bare
    b["surface"] = lambda: build.surface(TEXTF)
    return b
