"""Reads the literals of the code under test: values it treats specially are worth trying.
Only the workload depends on them, never a verdict. literals.json lists those of the code as it
was when this was written; others get more of the attempts."""
import glob, json, os, re
import build


def strip_tests(s):
    """Drops what follows a #[cfg(test)] on a module."""
    m = re.search(r"#\[cfg\(test\)\]\s*mod\b", s)
    return s[:m.start()] if m else s


NUM = r"0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*"
SUF = r"(?:[iu](?:8|16|32|64|128|size))?"
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?P<str>(?:[^"\\]|\\.)*)"|'(?P<chr>[^'\\\n]|\\[^'\n]{1,10}|\\')'|'''
                   r'''(?<![\w.])(?P<int>''' + NUM + ''')|\\b(?P<max>[iu](?:8|16|32))::MAX''', re.S)
# Numbers or characters listed in brackets.
LIST = re.compile(r"[\[(]\s*((?:(?:" + NUM + ")" + SUF + r"|b?'(?:[^'\\]|\\.[^']*)')(?:\s*,\s*(?:(?:" + NUM + ")" + SUF + r"|b?'(?:[^'\\]|\\.[^']*)'))+)\s*,?\s*[\])]")
ITEM = re.compile(r"(?P<int>" + NUM + ")" + SUF + r"|b?'(?P<chr>[^'\\]|\\.[^']*)'")
ARITH = re.compile(r"(?<![\w.])(" + NUM + ")" + SUF + r"\s*(<<|\*|\+|-)\s*(" + NUM + ")" + SUF + r"(?!\w)")

ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    def one(m):
        e = m.group(1)
        if e[0] == "u":
            try:
                return chr(int(e[2:-1].replace("_", ""), 16))
            except ValueError:
                return ""
        if e[0] == "x":
            return chr(int(e[1:], 16))
        return ESC.get(e[0], "")
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|[nrt0\\'\"]|\n\s*)", one, s)


def number(t):
    t = t.replace("_", "")
    try:
        return int(t, 0) if t[:1] == "0" and len(t) > 1 and not t.isdigit() else int(t)
    except ValueError:
        return None


def fine(v, most=64):
    return 0 < len(v) <= most and all(not 0xD800 <= ord(c) < 0xE000 for c in v)


def literals():
    """The integers, strings, characters and lists in the source."""
    ints, strs, chars, lists = {}, {}, {}, {}
    for f in sorted(glob.glob(os.path.join(build.REPO, "src", "**", "*.rs"), recursive=True)):
        try:
            with open(f, encoding="utf8", errors="replace") as h:
                s = strip_tests(h.read())
        except OSError:
            continue
        for m in TOKEN.finditer(s):
            if m.group("str") is not None:
                v = unescape(m.group("str"))
                if fine(v):
                    strs[v] = 1
            elif m.group("chr") is not None:
                v = unescape(m.group("chr"))
                if len(v) == 1 and not 0xD800 <= ord(v) < 0xE000:
                    chars[v] = 1
            elif m.group("max") is not None:
                t = m.group("max")
                ints[(1 << int(t[1:]) - (t[0] == "i")) - 1] = 1
            elif m.group("int") is not None:
                n = number(m.group("int"))
                if n is not None and n < 1 << 64:
                    ints[n] = 1
        for m in ARITH.finditer(s):
            a, b = number(m.group(1)), number(m.group(3))
            if a is None or b is None or m.group(2) == "<<" and b > 63:
                continue
            n = {"<<": lambda: a << b, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b}[m.group(2)]()
            if 0 <= n < 1 << 64:
                ints[n] = 1
        for m in LIST.finditer(s):
            v = []
            for i in ITEM.finditer(m.group(1)):
                v.append(number(i.group("int")) if i.group("int") else unescape(i.group("chr")))
            if 2 <= len(v) <= 20 and None not in v:
                lists[json.dumps(v)] = 1
    return dict(ints=sorted(ints), strs=sorted(strs), chars=sorted(chars), lists=sorted(lists))


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")


def from_list(v):
    """What a list of digits, bytes, characters or channels may stand for."""
    strs, ints = [], []
    if all(isinstance(x, int) for x in v):
        if all(x < 10 for x in v):
            strs.append("".join(map(str, v)))
        if all(32 <= x < 127 for x in v):
            strs.append("".join(map(chr, v)))
        if len(v) in (3, 4) and all(x < 256 for x in v):
            n = 0
            for x in v:
                n = n << 8 | x
            ints.append(n)
    elif all(isinstance(x, str) for x in v):
        strs.append("".join(v))
    return strs, ints


def dictionary():
    got = literals()
    try:
        with open(KNOWN) as f:
            known = {k: set(v) for k, v in json.load(f).items()}
    except OSError:
        known = {}
    near = lambda l: sorted({v for n in l for v in (n - 1, n, n + 1) if 0 <= v < 1 << 64})
    new = {k: [x for x in v if x not in known.get(k, ())] for k, v in got.items()}
    new_strs, new_ints = list(new["strs"]), list(new["ints"])
    for l in new["lists"]:
        s, i = from_list(json.loads(l))
        new_strs += [x for x in s if fine(x)]
        new_ints += i
    # A string may be a piece of an unusual one.
    new_chars = list(dict.fromkeys(new["chars"] + [c for s in new_strs if len(s) <= 4 for c in s]))
    ints = near(got["ints"])
    more = [n for n in new_ints if n not in set(ints)]
    return dict(ints=(ints[:600] + more)[:900], strs=(new_strs + got["strs"])[:700], chars=(new_chars + got["chars"])[:600],
                new_ints=near(new_ints)[:90], new_strs=new_strs[:60], new_chars=new_chars[:60])


# Platforms whose standard library Miri can build, those of everyday first.
TARGETS = """s390x-unknown-linux-gnu i686-pc-windows-msvc aarch64-apple-darwin x86_64-pc-windows-msvc i686-unknown-linux-gnu x86_64-apple-darwin
x86_64-unknown-freebsd aarch64-linux-android aarch64-unknown-linux-gnu armv7-unknown-linux-gnueabihf riscv64gc-unknown-linux-gnu
powerpc64-unknown-linux-gnu powerpc64le-unknown-linux-gnu powerpc-unknown-linux-gnu mips-unknown-linux-gnu mips64-unknown-linux-gnuabi64
loongarch64-unknown-linux-gnu sparc64-unknown-linux-gnu x86_64-unknown-linux-musl x86_64-pc-windows-gnu aarch64-apple-ios aarch64-pc-windows-msvc
x86_64-unknown-illumos x86_64-pc-solaris x86_64-unknown-linux-gnux32 arm-unknown-linux-gnueabi i686-linux-android
i686-unknown-freebsd mipsel-unknown-linux-gnu x86_64-apple-ios-macabi""".split()


def conditions():
    """What the code asks of its platform: {(key, value)}, value None for unix and the like."""
    got = {}
    for f in sorted(glob.glob(os.path.join(build.REPO, "src", "**", "*.rs"), recursive=True)):
        try:
            with open(f, encoding="utf8", errors="replace") as h:
                s = strip_tests(h.read())
        except OSError:
            continue
        for m in re.finditer(r"\bcfg(?:_attr)?!?\s*\(", s):
            c = s[m.end():m.end() + 400]
            depth, end = 1, 0
            for end, ch in enumerate(c):
                depth += (ch == "(") - (ch == ")")
                if depth == 0:
                    break
            c = c[:end]
            for k, v in re.findall(r'(target_\w+)\s*=\s*"([^"]*)"', c):
                got[k, v] = 1
            for k in re.findall(r"\b(unix|windows)\b", c):
                got[k, None] = 1
    return list(got)


def platforms():
    """Targets on which the conditions of the code hold that do not hold here."""
    want = conditions()
    if not want:
        return []
    import subprocess

    def has(t):
        r = subprocess.run(["rustc", "+nightly", "--print", "cfg", "--target", t], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        v = set()
        for l in r.stdout.splitlines():
            k, e, x = l.partition("=")
            v.add((k, x.strip('"') if e else None))
        return v
    here = has(build.HOST)
    want = [w for w in want if w not in here]
    out = []
    for t in TARGETS:
        if not want:
            break
        h = has(t)
        if any(w in h for w in want):
            out.append(t)
            want = [w for w in want if w not in h]
    return out


if __name__ == "__main__":
    import sys
    if sys.argv[1:] == ["write"]:
        with open(KNOWN, "w") as f:
            json.dump(literals(), f, indent=0, ensure_ascii=True)
    else:
        print(json.dumps(dictionary(), ensure_ascii=False)[:6000])
