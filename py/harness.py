"""Command line, progress and result files shared by the Python workloads (same protocol as drivers/common/rt.h)."""
import sys, os, json, struct, random, hashlib, argparse, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))

NONE, VECTOR, FLOAT, INT, STR = range(5)
TYPES = ["NONE", "VECTOR", "FLOAT", "INT", "INDEXEDSTR"]


class Harness:
    def __init__(self):
        ap = argparse.ArgumentParser()
        for o in ("prop", "tier", "out", "progress", "tmp"):
            ap.add_argument("--" + o, required=True)
        for o in ("seed", "from", "to"):
            ap.add_argument("--" + o, type=int, required=True, dest=o + "_")
        ap.add_argument("--replay")
        self.a = ap.parse_args()
        self.tmp = self.a.tmp
        self.prop = self.a.prop
        self.thorough = self.a.tier != "quick"
        self.evals, self.counters, self.samples, self.seen = 0, {}, [], set()
        self.nviol = 0
        self.case = -1
        self.f = open(self.a.out, "a")
        self.pf = os.open(self.a.progress, os.O_WRONLY)

    def progress(self, n):
        os.pwrite(self.pf, struct.pack("q", n), 0)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def ev(self, n=1):
        self.evals += n

    def distinct(self, *parts):
        h = hashlib.blake2b(repr(parts).encode("utf8", "surrogatepass"), digest_size=8).digest()
        self.seen.add(struct.unpack("Q", h)[0])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s[:400])

    def viol(self, key, msg):
        self.nviol += 1
        self.f.write(json.dumps({"t": "viol", "case": self.case, "key": key, "msg": msg[:2000]}) + "\n")
        self.f.flush()

    def check(self, cond, key, msg):
        self.ev()
        if not cond:
            self.viol(key, msg() if callable(msg) else msg)
        return cond

    def run(self, fn):
        for c in range(self.a.from_, self.a.to_):
            self.case = c
            self.progress(c)
            rng = random.Random("%s:%d:%d" % (self.prop, self.a.seed_, c))
            try:
                fn(self, rng)
            except Exception as e:      # a legitimate call of the workload raised
                tb = traceback.extract_tb(e.__traceback__)
                own = [x for x in tb if os.path.dirname(os.path.abspath(x.filename)) == HERE]
                self.viol("raised:%s:%s" % (type(e).__name__, own[-1].name if own else "?"), "%s: %s; %s" % (type(e).__name__, e, " <- ".join("%s:%d %s" % (os.path.basename(x.filename), x.lineno, x.line) for x in reversed(tb[-5:]))))
            if self.nviol > 20:
                break
        self.progress(-2)
        self.f.write(json.dumps({"t": "stats", "evaluations": self.evals, "counters": self.counters, "samples": self.samples}) + "\n")
        self.f.close()
        with open(self.a.out + ".distinct", "wb") as f:
            for h in self.seen:
                f.write(struct.pack("Q", h))
        sys.stdout.flush()
        sys.exit(1 if self.nviol else 0)


def f32(x):
    """nearest float32 of x, as a Python float"""
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def frombits(u):
    return struct.unpack("<f", struct.pack("<I", u))[0]


def rfloat(r, finite=False):
    k = r.random()
    if k < 0.35:
        return f32(r.uniform(-10, 10))
    if k < 0.5:
        return float(r.randint(-5, 5))
    if k < 0.6:
        return f32(r.uniform(-1, 1) * 10.0 ** r.randint(-44, 38))
    if k < 0.7:
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, f32(1e-45), 1.1754943508222875e-38, 3.4028234663852886e38, -3.4028234663852886e38, 16777217.0 - 1])
    if not finite and k < 0.74:
        return r.choice([float("inf"), float("-inf"), float("nan")])
    u = r.getrandbits(32)
    v = frombits(u)
    if v != v or v in (float("inf"), float("-inf")):
        return f32(r.random()) if finite or r.random() < .5 else (float("nan") if v != v else v)
    return v


def rint(r):
    k = r.random()
    if k < 0.5:
        return r.randint(-10, 10)
    if k < 0.7:
        return r.choice([0, 1, -1, 2**31 - 1, -2**31, 255, 256, 65535, 65536, 0x7f7f7f7f])
    return r.randint(-2**31, 2**31 - 1)


WORDS = ["a", "b", "foo", "bar baz", "x" * 40, "\u00e9t\u00e9", "\u6f22\u5b57", "with\"quote", "back\\slash", "tab\there", "0", "-1", "\U0001f600", "new\nline", "comma,", " lead", "trail "]


def rstring(r, i=None):
    if r.random() < .04:
        return ""
    s = r.choice(WORDS) if r.random() < 0.7 else "".join(chr(r.choice([r.randint(33, 126), r.randint(33, 126), r.randint(0xa1, 0x2ff), 0x20ac])) for _ in range(r.randint(1, 12)))
    return s if i is None else s + str(i)


def rname(r, used, plain=False):
    while True:
        n = r.choice(["position", "velocity", "id", "mass", "life", "color", "name", "v", "N"]) if r.random() < 0.6 else \
            "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789") for _ in range(r.randint(1, 14)))
        if not plain and r.random() < .05:
            n += r.choice(["\u00e9", " x", ".y", "\u6f22", " "])
            if r.random() < .2:
                n = " " + n
        if n[0].isdigit():
            n = "a" + n
        if n not in used:
            used.add(n)
            return n


def main(fn, setup=None):
    h = None
    try:
        h = Harness()
        if setup:
            setup(h)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    h.run(fn)
