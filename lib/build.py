"""Builds the code under test, from /repo's working tree, in every flavour a check asks for."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
HOST = "x86_64-unknown-linux-gnu"
FZ = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer-x86_64.a"


def base_env(**more):
    keep = {k: v for k, v in os.environ.items()
            if not (k.startswith("CARGO_") and k != "CARGO_HOME") and not k.startswith("RUST") or k == "RUSTUP_HOME"}
    keep.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    keep.update(more)
    return keep


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(r) for f in fs if "/target/" not in d + "/")
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as s:
                    h.update(hashlib.sha256(s.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


class BuildError(Exception):
    def __init__(self, name, text):
        super().__init__("%s does not build" % name)
        self.name, self.text = name, text


def refresh(td, stamp):
    """Cargo looks at modification times; we look at contents, so that no stale build is ever run."""
    p = os.path.join(td, "bc-stamp")
    old = None
    if os.path.exists(p):
        with open(p) as f:
            old = f.read()
    if old != stamp and os.path.isdir(td):
        for n in ("barcoders", "bcsut", "bcmon", "bcprobe", "bcprobe32", "bcsurface"):
            for d in glob.glob(td + "/*/.fingerprint/%s-*" % n) + glob.glob(td + "/*/*/.fingerprint/%s-*" % n):
                shutil.rmtree(d, ignore_errors=True)
    os.makedirs(td, exist_ok=True)
    return p


def cargo(name, td, args, cwd, env=None, toolchain=None, timeout=800):
    stamp = tree_hash(REPO + "/src", REPO + "/Cargo.toml", HARNESS, VERIF + "/probe", VERIF + "/probe32", VERIF + "/surface")
    p = refresh(td, stamp)
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args + ["--offline", "--target-dir", td]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=base_env(**(env or {})), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise BuildError(name, "timed out")
    if r.returncode != 0:
        raise BuildError(name, r.stdout.decode("utf8", "replace"))
    with open(p, "w") as f:
        f.write(stamp)


def mon(image, mode):
    """The monitors, with or without the image generators, in checked or unchecked arithmetic."""
    name = ("img-" if image else "text-") + mode
    td = os.path.join(OUT, name)
    cargo(name, td, ["build", "--bin", "bcmon", "--profile", mode] + (["--features", "image"] if image else []), HARNESS)
    return os.path.join(td, mode, "bcmon")


def fuzz(image):
    name = ("img-" if image else "text-") + "fuzz"
    td = os.path.join(OUT, name)
    flags = "-Clink-arg=-Wl,--whole-archive -Clink-arg=%s -Clink-arg=-Wl,--no-whole-archive -Clink-arg=-lstdc++" % FZ
    cargo(name, td, ["build", "--bin", "bcfuzz", "--profile", "checked", "--target", HOST,
                     "--features", "image,fuzz" if image else "fuzz"], HARNESS,
          dict(RUSTC_WRAPPER=os.path.join(HARNESS, "rustc-cov"), RUSTFLAGS=flags))
    return os.path.join(td, HOST, "checked", "bcfuzz")


def asan():
    td = os.path.join(OUT, "asan")
    cargo("asan", td, ["build", "--bin", "bcmon", "--profile", "checked", "--target", HOST, "--features", "image"],
          HARNESS, dict(RUSTFLAGS="-Zsanitizer=address"), "nightly")
    return os.path.join(td, HOST, "checked", "bcmon")


def tsan():
    td = os.path.join(OUT, "tsan")
    cargo("tsan", td, ["build", "-Zbuild-std", "--bin", "bcmon", "--release", "--target", HOST, "--features", "image"],
          HARNESS, dict(RUSTFLAGS="-Zsanitizer=thread"), "nightly")
    return os.path.join(td, HOST, "release", "bcmon")


def clock():
    """A library to preload that shows another time; None where it cannot be had."""
    so = os.path.join(OUT, "clock.so")
    src = os.path.join(VERIF, "lib", "clock.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(OUT, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        for cc in ("gcc", "clang"):
            try:
                r = subprocess.run([cc, "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except OSError:
                continue
            if r.returncode == 0:
                os.replace(tmp, so)
                break
        else:
            return None
    return so


def probe(features, mode, flags=""):
    """The probe with a feature set: a tuple of names."""
    name = "probe-%s-%s%s" % ("+".join(features) or "none", mode, "-" + hashlib.sha1(flags.encode()).hexdigest()[:6] if flags else "")
    td = os.path.join(OUT, "probes", name)
    cargo(name, td, ["build", "--bin", "bcprobe"] + (["--release"] if mode == "release" else []) +
          (["--features", ",".join(features)] if features else []), VERIF + "/probe", dict(RUSTFLAGS=flags))
    return os.path.join(td, mode, "bcprobe")


def probe32(mode):
    td = os.path.join(OUT, "probe32-" + mode)
    t = "i686-unknown-linux-gnu"
    cargo("probe32-" + mode, td, ["build", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem", "--target", t] +
          (["--release"] if mode == "release" else []), VERIF + "/probe32",
          dict(RUSTFLAGS="-Clinker=ld -Clinker-flavor=ld -Clink-arg=-melf_i386 -Clink-arg=-nostdlib -Crelocation-model=static "
                         "-Clink-arg=-static -Ctarget-feature=+crt-static"), "nightly")
    return os.path.join(td, t, mode, "bcprobe32")


def surface(features, mode="dev"):
    """What a user's program needs to compile. Whether it does, where the crate alone does."""
    td = os.path.join(OUT, "surface")
    f = ["--no-default-features"] + (["--features", ",".join(features)] if features else [])
    try:
        cargo("surface", td, ["check", "--lib", "--profile", mode] + f, VERIF + "/surface")
        return None
    except BuildError as e:
        cargo("the crate", td, ["check", "--lib", "--profile", mode, "--no-default-features", "--features", ",".join(("alone",) + tuple(features))], VERIF + "/surface")
        return e.text


SUBJECTS = {
    "fn ascii": ("C19", "C26", "C28"), "fn json": ("C20", "C26", "C28"), "fn svg": ("C17", "C18", "C26", "C28"),
    "fn image": ("C14", "C15", "C16", "C26", "C28"), "fn parts": ("C08", "C28"),
    "ean13::EAN13:": ("C01", "C02", "C12", "C28"), "upca::UPCA:": ("C01", "C02", "C12", "C28"), "ean8::EAN8:": ("C01", "C02", "C12", "C28"),
    "ean_supp::EANSUPP:": ("C03", "C12", "C28"), "tf::TF:": ("C04", "C05", "C12", "C28"), "codabar::Codabar:": ("C06", "C12", "C28"),
    "code11::Code11:": ("C07", "C12", "C28"), "code39::Code39:": ("C08", "C12", "C28"), "code93::Code93:": ("C09", "C12", "C28"),
    "code128::Code128:": ("C10", "C11", "C28"),
}


def surface_subjects(text):
    """The properties about what the errors of the user's program are about."""
    with open(VERIF + "/surface/src/lib.rs") as f:
        lines = f.read().splitlines()
    props = set()
    if "cannot be sent between threads" in text or "cannot be shared between threads" in text:
        props.add("C22")
    for n in re.findall(r"--> src/lib\.rs:(\d+):", text):
        for l in reversed(lines[:int(n)]):
            # The row of the table or the function that the line is in.
            k = next((k for k in SUBJECTS if l.strip().startswith(k)), None)
            if k:
                props.update(SUBJECTS[k])
            if k or l.startswith(("fn ", "macro_rules!", "symbology!")):
                break
    return props


def bare():
    """A platform that has no standard library at all."""
    td = os.path.join(OUT, "bare")
    cargo("bare", td, ["build", "--lib", "-Zbuild-std=core,alloc", "--target", "x86_64-unknown-none", "--features", "ascii,json,svg"],
          VERIF + "/probe", {}, "nightly")
    return td


class Miri:
    """The probe under the Miri interpreter, for a target."""

    def __init__(self, target=HOST, features=("std", "ascii", "json", "svg"), mode="debug"):
        self.target, self.features, self.mode = target, features, mode
        self.name = "miri-%s-%s" % (target, "+".join(features))
        self.td = os.path.join(OUT, self.name)
        self.env = dict(XDG_CACHE_HOME=os.path.join(OUT, "cache-" + target))

    def prepare(self):
        e = self.environ("")
        r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", self.target], cwd=VERIF + "/probe", env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            raise BuildError("the Miri library for " + self.target, r.stdout.decode("utf8", "replace"))
        # An empty run compiles everything.
        stamp = tree_hash(REPO + "/src", REPO + "/Cargo.toml", VERIF + "/probe")
        p = refresh(self.td, stamp)
        r = subprocess.run(self.cmd(["run"]), cwd=VERIF + "/probe", env=e, input=b"",
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            raise BuildError(self.name, r.stdout.decode("utf8", "replace"))
        with open(p, "w") as f:
            f.write(stamp)
        return self

    def cmd(self, args):
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", self.target, "--target-dir", self.td,
                "--bin", "bcprobe"] + (["--features", ",".join(self.features)] if self.features else []) + ["--"] + args

    def environ(self, flags):
        return base_env(MIRIFLAGS="-Zmiri-disable-isolation " + flags, **self.env)


def several(jobs):
    """Runs build functions at once: {name: function} -> {name: result or BuildError}."""
    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = {n: ex.submit(f) for n, f in jobs.items()}
        for n, f in fs.items():
            try:
                res[n] = f.result()
            except BuildError as e:
                res[n] = e
    return res
