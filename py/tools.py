"""P26: partconvert, partinfo and partattr (built with ASan+UBSan) against the data written into their input files."""
from model import *
import partio, subprocess

EXT = ["bgeo", "bgeo", "bgeo", "geo", "pdb", "pdb32", "pdb64", "prt", "ptc", "bin", "pda", "pdc", "bgeo.gz", "bhclassic", "ptf"]
OUT = ["bgeo", "geo", "pdb", "pdb32", "pdb64", "prt", "ptc", "bin", "pda", "pdc", "rib", "bgeo.gz", "geo.gz", "pdb.gz", "bhclassic", "ptf"]
READABLE = ["bgeo", "geo", "pdb", "pdb32", "pdb64", "pda", "mc", "ptc", "pdc", "prt", "bin", "pts", "ptf", "itbl", "icecache", "bhclassic"]
BANNER = ("AddressSanitizer", "runtime error:", "terminate called", "Assertion")


def tool(h, name, *args):
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH", "PYTHONMALLOC")}
    try:
        q = subprocess.run([os.environ["VERIF_" + name.upper()]] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=h.cwd, timeout=60, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        h.viol("hang:" + name, "%s %s did not finish in 60 s" % (name, list(args)))
        return None, "", ""
    out, err = q.stdout.decode("utf8", "surrogateescape"), q.stderr.decode("utf8", "surrogateescape")
    h.count("runs." + name)
    crash = q.returncode < 0 or q.returncode in (77, 134, 139) or any(b in err for b in BANNER)
    if crash and not ("allocation-size-too-big" in err or "failed to allocate" in err or "out-of-memory" in err or "rss-limit" in err):
        i = min([err.find(b) for b in BANNER if b in err] or [0])
        h.viol("crash:" + name, "%s %s dies with status %d: %s" % (name, list(args), q.returncode, " ".join(err[max(0, i - 100):i + 900].split())))
        return None, "", ""
    h.ev()
    h.check(not os.listdir(h.cwd), "litter:" + name, "%s leaves files in the working directory: %s" % (name, os.listdir(h.cwd)))
    for x in os.listdir(h.cwd):
        os.unlink(h.cwd + "/" + x)
    return q.returncode, out, err


def g(x):
    """a float as the C++ streams print it"""
    if x != x:
        return "nan"
    return "%g" % x


def isnan(s):
    return s in ("nan", "-nan")


def eqv(a, x, s):
    if a.isf():
        return s == g(x) or (x != x and isnan(s))
    return s == str(x)


def info_particle(h, t, i, blk, ctx):
    """checks the lines partinfo prints for particle i"""
    if not 0 <= i < t.n:
        return h.check(blk == ["OUT OF RANGE"], "partinfo.range", lambda: "particle %d of %d: %s; %s" % (i, t.n, blk, ctx))
    if not h.check(len(blk) == len(t.attrs), "partinfo.particle", lambda: "particle %d has %d lines for %d attributes: %s" % (i, len(blk), len(t.attrs), blk[:6])):
        return
    for a, v, line in zip(t.attrs, t.vals[i], blk):
        w = line.split(None, 2)
        body = w[2] if len(w) > 2 else ""
        ok = w[:2] == [TYPES[a.type], a.name]
        if a.count > 1:
            ok = ok and body.startswith("[ ") and body.endswith(" ]")
            body = body[2:-2]
        parts = body.split(", ") if a.count else []
        if a.type == STR:
            want = ["%d=%s" % (x, "'%s'" % a.strs[x] if 0 <= x < len(a.strs) else "<out-of-bounds>") for x in v]
            ok = ok and ", ".join(parts) == ", ".join(want)
        else:
            ok = ok and len(parts) == a.count and all(eqv(a, x, s.strip()) for x, s in zip(v, parts))
        h.check(ok, "partinfo.value", lambda: "particle %d, %s %s: printed %r for %s; %s" % (i, TYPES[a.type], a.name, line, v, ctx))
        h.count("printed_values", a.count)


def partinfo(h, r, f, t, ctx):
    mode = r.choice(["plain", "plain", "all", "some", "strings", "flags"])
    idx = sorted({r.choice([0, 1, t.n - 1, t.n, t.n + 3, 10**6, r.randint(0, max(t.n, 1))]) for _ in range(3)}) if mode == "some" else []
    idx = [i for i in idx if i >= 0]
    if mode == "some" and not idx:
        mode = "plain"
    args = {"plain": [f], "all": r.choice([["-a", f], [f, "--all"]]), "some": [f] + [r.choice(["%d", "%d", "%d", "0%d", "%08d"]) % i for i in r.sample(idx, len(idx)) + (idx[:1] if r.random() < .2 else [])], "strings": r.choice([["-s", f], [f, "--strings"]]), "flags": ["--frobnicate", f]}[mode]
    rc, out, err = tool(h, "partinfo", *args)
    if rc is None:
        return
    h.check(rc == 0, "partinfo.status", lambda: "partinfo %s: status %d, %s; %s" % (args[:1] if mode != "some" else args, rc, err[-300:], ctx))
    if mode == "flags":
        h.check("Unknown flag" in err, "partinfo.flag", "an unknown flag is not reported")
    L = out.split("\n")
    # the parse below takes names without blanks; strings may hold line breaks, so only sections without them are walked
    if not h.check(L[0].split()[:3] == ["Number", "of", "particles:"] and L[0].split()[3] == str(t.n), "partinfo.count", lambda: "%r for %d particles; %s" % (L[0], t.n, ctx)):
        return
    for k, a in enumerate(t.attrs):
        w = L[3 + k].split() if 3 + k < len(L) else []
        h.check(w == [TYPES[a.type], str(a.count), a.name], "partinfo.attributes", lambda: "attribute %d is printed as %s; %s" % (k, w, ctx))
    rest = L[3 + len(t.attrs):]
    if mode in ("all", "some"):
        blocks, cur = [], None
        for l in rest:
            if l.startswith("-----"):
                cur = []
                blocks.append(cur)
            elif cur is not None and l:
                cur.append(l)
        want = list(range(t.n)) if mode == "all" else idx
        if h.check([b[0] for b in blocks] == ["Particle %d:" % i for i in want], "partinfo.which", lambda: "printed particles %s instead of %s; %s" % ([b[:1] for b in blocks][:8], want[:8], ctx)):
            for i, b in zip(want, blocks):
                info_particle(h, t, i, b[1:], ctx)
    else:
        text = "\n".join(rest)
        if t.fixed:
            h.check("Fixed Attributes" in text, "partinfo.fixed", lambda: "fixed attributes are not listed; %s" % ctx)
            p0 = next((k for k, l in enumerate(rest) if l.startswith("Fixed Attributes")), 0) + 3
            for k, a in enumerate(t.fixed):
                w = rest[p0 + k].split() if p0 + k < len(rest) else []
                h.check(w == [TYPES[a.type], str(a.count), a.name], "partinfo.fixed", lambda: "fixed attribute %d is printed as %s; %s" % (k, w, ctx))
            for a, v in zip(t.fixed, t.fvals):
                if a.type == STR:
                    continue
                c = [l.split() for l in rest[p0 + len(t.fixed):] if l.split()[:2] == [TYPES[a.type], a.name]]
                h.check(any(len(w) == 2 + a.count and all(eqv(a, x, s) for x, s in zip(v, w[2:])) for w in c), "partinfo.fixedvalue", lambda: "fixed %s has %s, printed %s; %s" % (a.name, v, c, ctx))
        else:
            h.check("Fixed Attributes" not in text, "partinfo.fixed", "fixed attributes listed where there are none")
        pos = 0
        for a in t.attrs:
            if a.type != STR:
                continue
            n = len(a.strs) if mode == "strings" else min(5, len(a.strs))
            want = "%s (%d) = [%s%s" % (a.name, len(a.strs), "\n" if a.strs else "", "".join("  %s\n" % s for s in a.strs[:n]))
            p2 = text.find(want, pos)
            h.check(p2 >= 0, "partinfo.strings", lambda: "strings of %s: expected %r in %r; %s" % (a.name, want, text[-600:], ctx))
            pos = max(p2, pos)


def partattr(h, r, f, t, ctx):
    if not t.attrs:
        return
    a = r.choice(t.attrs)
    k = [x.name for x in t.attrs].index(a.name)
    lim = r.choice([None, None, 0, 1, 3, t.n, t.n + 5, 10**6, -1, -7])
    rc, out, err = tool(h, "partattr", f, a.name, *([] if lim is None else [str(lim)]))
    if rc is None:
        return
    n = max(0, min(10 if lim is None else lim, t.n))
    h.check(rc == 0, "partattr.status", lambda: "status %d, %s; %s" % (rc, err[-300:], ctx))
    pos = 0
    for i in range(n):
        v = t.vals[i][k]
        pre = "%s[%d]=" % (a.name, i)
        if not h.check(out.startswith(pre, pos), "partattr.line", lambda: "%s: expected %r, found %r; %s" % (a.name, pre, out[pos:pos + 60], ctx)):
            return
        pos += len(pre)
        if a.type == STR:
            if all(0 <= x < len(a.strs) for x in v) and v:
                ok = False
                form = ",".join("'%s'" % a.strs[x] for x in v)
                for form in (["(%s)" % form, form] if len(v) > 1 else [form]):
                    if out.startswith(form + "\n", pos):
                        pos += len(form) + 1
                        ok = True
                        break
                if not h.check(ok, "partattr.string", lambda: "%s[%d] is %s, printed %r; %s" % (a.name, i, [a.strs[x] for x in v], out[pos:pos + 80], ctx)):
                    return
            else:               # no such string: any mark will do
                e = out.find("\n" + "%s[%d]=" % (a.name, i + 1) if i + 1 < n else "\n", pos)
                if e < 0:
                    return
                pos = e + 1
                continue
        else:
            e = out.find("\n", pos)
            s = out[pos:e]
            pos = e + 1
            s2 = s[1:-1] if s.startswith("(") and s.endswith(")") else s
            parts = s2.split(",") if s2 else []
            if not h.check(len(parts) == a.count and all(eqv(a, x, y.strip()) for x, y in zip(v, parts)), "partattr.value", lambda: "%s[%d] is %s, printed %r; %s" % (a.name, i, v, s, ctx)):
                return
        h.count("printed_values", a.count)
    h.check(out[pos:] == "", "partattr.more", lambda: "%s with limit %s prints more than %d particles: %r; %s" % (a.name, lim, n, out[pos:pos + 80], ctx))


def partconvert(h, r, f, t, ref, ctx):
    e = r.choice(OUT)
    o = r.choice([".", ".", ".7.", "."])
    o1, o2 = h.tmp + "/conv" + o + e, h.tmp + "/lib" + o + e
    for o in (o1, o2):
        if os.path.exists(o):
            os.unlink(o)
    rc, out, err = tool(h, "partconvert", f, o1)
    if rc is None:
        return
    partio.write(o2, ref, False, False)
    h.check(os.path.exists(o1) == os.path.exists(o2), "partconvert.file", lambda: "to %s: the tool wrote %s file, the library %s; %s; %s" % (e, "a" if os.path.exists(o1) else "no", "one" if os.path.exists(o2) else "none", err[-200:], ctx))
    if os.path.exists(o1) and os.path.exists(o2):
        a, b = open(o1, "rb").read(), open(o2, "rb").read()
        h.check(a == b, "partconvert.bytes", lambda: "to %s: the tool's file differs from the library's (%d, %d bytes); %s" % (e, len(a), len(b), ctx))
        if e in ("bgeo", "bhclassic", "bgeo.gz") and any(a.name == "position" and a.type == VECTOR and a.count == 3 for a in t.attrs):
            d = diff(partio, partio.read(o1, False), t, order=False)
            h.check(d is None, "partconvert.content", lambda: "to %s: %s; %s" % (e, d, ctx))
    h.count("conversions")


def usage(h, r, f, ctx):
    bad = r.choice([h.tmp + "/missing.bgeo", h.tmp + "/missing.xyz", h.tmp, "", "noextension", h.tmp + "/missing.pdb"])
    o = h.tmp + "/never.bgeo"
    name, args, rcs = r.choice([("partconvert", [], (1,)), ("partconvert", [f], (1,)), ("partconvert", [f, o, "x"], (1,)), ("partconvert", [bad, o], None), ("partconvert", [f, h.tmp + "/no/dir.bgeo"], None), ("partconvert", [f, h.tmp + "/o.unknown"], None),
                                ("partinfo", [], (1,)), ("partinfo", ["-a"], None), ("partinfo", ["-s", "-a"], None), ("partinfo", ["-q"], None), ("partinfo", ["-h"], (0,)), ("partinfo", ["--help"], (0,)), ("partinfo", [bad], (1,)), ("partinfo", [bad, "-a"], (1,)),
                                ("partinfo", [f, "-1"], None), ("partinfo", [f, "abc"], None), ("partinfo", [f, "99999999999999"], None),
                                ("partattr", [], (1,)), ("partattr", [f], (1,)), ("partattr", [f, "a", "1", "2"], (1,)), ("partattr", [bad, "position"], (1,)), ("partattr", [f, "no such attribute"], None), ("partattr", [f, ""], None), ("partattr", [f, "position", "abc"], None), ("partattr", [f, "position", "99999999999"], None)])
    rc, out, err = tool(h, name, *args)
    if rc is None:
        return
    h.count("usage")
    silent = not (out + err).strip()
    strict = not (name == "partattr" and len(args) == 3)
    h.check(not (silent and strict), "usage.silent", lambda: "%s %s prints nothing (status %d)" % (name, args, rc))
    if rcs:
        h.check(rc in rcs, "usage.status", lambda: "%s %s: status %d, %s" % (name, args, rc, err[-200:]))
    if args[:1] == [bad]:
        h.check(not os.path.exists(o), "usage.file", "partconvert writes a file although its input cannot be read")
    if args[1:2] == ["no such attribute"]:
        h.check("[0]=" not in out, "usage.noattr", lambda: "partattr prints values of an attribute that does not exist: %r" % out[:200])


def malformed(h, r, f):
    """damaged files: an answer, not a crash"""
    b = bytearray(open(f, "rb").read())
    if r.random() < .5:
        del b[r.randrange(len(b) + 1):]
    for _ in range(r.randint(0, 5)):
        if b:
            b[r.randrange(min(len(b), r.choice([16, 64, len(b)])))] = r.getrandbits(8)
    g = h.tmp + "/bad." + f.split(".", 1)[1].split("/")[-1] if "." in os.path.basename(f) else h.tmp + "/bad.bgeo"
    g = h.tmp + "/bad." + os.path.basename(f).split(".", 1)[1]
    open(g, "wb").write(b)
    n = r.choice(["partinfo", "partattr", "partconvert"])
    rc, out, err = tool(h, n, g, *{"partinfo": r.choice([[], ["-a"], ["0", "5"]]), "partattr": ["position"], "partconvert": [h.tmp + "/frombad.bgeo"]}[n])
    h.count("damaged")


def case(h, r):
    t = gen(r, maxn=r.choice([5, 30]), position=r.random() < .85, plain=True, maxcount=20, large=True)
    for a in t.attrs + t.fixed:       # one line per string
        a.strs = [s.replace("\n", "_") for s in a.strs]
        a.strs = [s for i, s in enumerate(a.strs) if s not in a.strs[:i]]
        if a.type == STR and r.random() < .1:        # tokens without a string
            for v in ([w[t.attrs.index(a)] for w in t.vals] if a in t.attrs else [t.fvals[t.fixed.index(a)]]):
                for k in range(len(v)):
                    if r.random() < .5:
                        v[k] = r.choice([-1, len(a.strs), len(a.strs) + 1, 2**31 - 1, -2**31, rint(r)])
    if r.random() < .004:
        a = Attr("widest", r.choice([FLOAT, INT]), r.choice([32767, 32768, 40000, 65535]))
        t.n = min(t.n, 2)
        t.vals = [v + [rvalue(r, a)] for v in t.vals[:t.n]]
        t.attrs.append(a)
    p = build(partio, t)
    e = r.choice(EXT)
    stem = r.choice(["/in", "/in", "/in.0001", "/in.v1.2", "/in put"])
    f = h.tmp + stem + "." + e
    if os.path.exists(f):
        os.unlink(f)
    partio.write(f, p, False, False)
    ref = None
    if os.path.exists(f) and (e not in ("bgeo", "bgeo.gz", "bhclassic") or any(a.name == "position" and a.isf() and a.count == 3 for a in t.attrs)):
        ref = partio.read(f, False)
    if ref is None:
        e = "bgeo"
        if not any(a.name == "position" for a in t.attrs):
            t.attrs.insert(0, Attr("position", VECTOR, 3))
            for v in t.vals:
                v.insert(0, rvalue(r, t.attrs[0]))
        elif any(a.name == "position" and not (a.isf() and a.count == 3) for a in t.attrs):
            return
        p = build(partio, t)
        f = h.tmp + stem + ".bgeo"
        partio.write(f, p, r.random() < .3, False)
        ref = partio.read(f, False)
    if e in ("bgeo", "bgeo.gz", "bhclassic"):
        k = [a.name for a in t.attrs].index("position")
        for lst in [t.attrs] + t.vals:
            lst.insert(0, lst.pop(k))
        t.attrs[0].type = VECTOR     # the format keeps no type for the position
        d = diff(partio, ref, t)
        h.check(d is None, "setup", lambda: d)
    else:
        t = snapshot(partio, ref)
    ctx = "%s: %s" % (e, t.describe())
    before = open(f, "rb").read()
    st = os.stat(f)
    acts = r.sample([lambda: partinfo(h, r, f, t, ctx), lambda: partinfo(h, r, f, t, ctx), lambda: partattr(h, r, f, t, ctx), lambda: partattr(h, r, f, t, ctx), lambda: partconvert(h, r, f, t, ref, ctx), lambda: partconvert(h, r, f, t, ref, ctx), lambda: usage(h, r, f, ctx), lambda: malformed(h, r, f)], 4)
    for x in acts:
        x()
    h.check(open(f, "rb").read() == before and os.stat(f).st_mtime_ns == st.st_mtime_ns, "input", lambda: "a tool changed its input file; %s" % ctx)
    h.distinct(e, t.key())
    h.sample(ctx)


def setup(h):
    h.cwd = h.tmp + "/cwd"
    os.makedirs(h.cwd, exist_ok=True)


if __name__ == "__main__":
    main(case, setup)
