"""P23: the module against a reference table, and against a plain C++ client of the library."""
from model import *
import partio, subprocess, math

FMT = ["bgeo", "geo", "pdb", "pdb32", "pdb64", "pda", "pdc", "prt", "ptc", "bin", "rib", "bhclassic", "ptf", "bgeo.gz", "pdb.gz", "pda.gz"]


class Cpp:
    def __init__(self, exe):
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH")}
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def __call__(self, *a):
        self.p.stdin.write(("\t".join(str(x) for x in a) + "\n").encode("utf8"))
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline().decode("ascii")
            if l == "":
                raise RuntimeError("the C++ side died on %r" % (a,))
            if l == ".\n":
                return "".join(out)
            out.append(l)


def hx(s):
    return '"%s"' % s.encode("utf8", "surrogateescape").hex()


def num(a, x):
    return ("nan" if x != x else "%08x" % bits(x)) if a.type in (VECTOR, FLOAT) else str(x)


def schema(p):
    o = ["n %d" % p.numParticles()]
    for c, k, g in (("a", p.numAttributes(), p.attributeInfo), ("f", p.numFixedAttributes(), p.fixedAttributeInfo)):
        for i in range(k):
            a = g(i)
            o.append("%s %s %d %d" % (c, hx(a.name), a.type, a.count))
    return "\n".join(o) + "\n"


def canon(p):
    if p is None:
        return "null\n"
    o = []
    hs = [p.attributeInfo(i) for i in range(p.numAttributes())]
    for a in hs:
        if a.type == STR:
            o.append(" ".join(["s"] + [hx(s) for s in p.indexedStrs(a)]))
    for i in range(p.numFixedAttributes()):
        a = p.fixedAttributeInfo(i)
        if a.type == STR:
            o.append(" ".join(["t"] + [hx(s) for s in p.fixedIndexedStrs(a)]))
        o.append(" ".join(["v"] + [num(a, x) for x in p.getFixed(a)]))
    for k in range(p.numParticles()):
        o.append(" ".join(["p"] + [num(a, x) for a in hs for x in p.get(a, k)]))
    return schema(p) + "".join(x + "\n" for x in o)


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i in range(max(len(la), len(lb))):
        x, y = la[i] if i < len(la) else "<end>", lb[i] if i < len(lb) else "<end>"
        if x != y:
            return "line %d: Python has %s, C++ has %s" % (i, x[:200], y[:200])
    return None


def parity(h, key, py, c, ctx):
    d = first_diff(py, c)
    h.check(d is None, key, lambda: "%s: %s" % (ctx(), d))


def history(h, r):
    """random operations, compared with the table after each"""
    t = Table()
    p = partio.create()
    used = [set(), set()]
    log = []
    for _ in range(r.randint(3, 40)):
        op = r.choice(["attr", "attr", "fixed", "add", "adds", "set", "set", "set", "setf", "reg", "reg", "regf", "ren", "renf", "look", "dup"])
        if op == "attr" and len(t.attrs) < 8 or op == "fixed" and len(t.fixed) < 5:
            ty = r.choice([VECTOR, FLOAT, INT, STR])
            lst = t.attrs if op == "attr" else t.fixed
            a = Attr(rname(r, used[op != "attr"]), ty, 3 if ty == VECTOR else r.choice([1, 1, 2, 3, 4, 9, 16, 20, 40]))
            hd = (p.addAttribute if op == "attr" else p.addFixedAttribute)(a.name, a.type, a.count)
            h.check((hd.name, hd.type, hd.count) == (a.name, a.type, a.count), "handle", "handle of %s is %s" % (a.name, (hd.name, hd.type, hd.count)))
            lst.append(a)
            if op == "attr":
                for k in range(t.n):
                    v = rvalue(r, a)
                    p.set(hd, k, v)
                    t.vals[k].append(v)
            else:
                v = rvalue(r, a)
                p.setFixed(hd, v)
                t.fvals.append(v)
        elif op in ("add", "adds"):
            k = 1 if op == "add" else r.choice([0, 1, 2, 7, 20])
            if op == "add":
                i = p.addParticle()
                h.check(i == t.n, "addParticle", "addParticle returned %r with %d particles" % (i, t.n))
            else:
                p.addParticles(k)
            for i in range(t.n, t.n + k):
                row = [rvalue(r, a) for a in t.attrs]
                for j, v in enumerate(row):
                    p.set(p.attributeInfo(j), i, tuple(v))
                t.vals.append(row)
            t.n += k
        elif op == "set" and t.attrs and t.n:
            j, i = r.randrange(len(t.attrs)), r.randrange(t.n)
            a = t.attrs[j]
            v = rvalue(r, a)
            arg = r.choice([tuple, list])(v)
            if a.isf() and r.random() < .3:       # floats may be given as ints and in double precision
                if r.random() < .5:
                    arg = [r.choice([r.randint(-10**7, 10**7), r.randint(-2**34, 2**34), r.randint(-2**63, 2**63), r.randint(-10**30, 10**30), 2**31, -2**31 - 1, 0]) for _ in v]
                else:
                    arg = [r.uniform(-1e6, 1e6) for _ in v]
                v = [f32(x) for x in arg]
            p.set(p.attributeInfo(a.name if r.random() < .5 else j), i, arg)
            t.vals[i][j] = v
        elif op == "setf" and t.fixed:
            j = r.randrange(len(t.fixed))
            v = rvalue(r, t.fixed[j])
            arg = r.choice([tuple, list])(v)
            if t.fixed[j].isf() and r.random() < .2:
                arg = [r.choice([r.randint(-10**7, 10**7), r.randint(-2**40, 2**40), -2**63, 2**64]) for _ in v]
                v = [f32(x) for x in arg]
            p.setFixed(p.fixedAttributeInfo(j), arg)
            t.fvals[j] = v
        elif op in ("reg", "ren", "look") and any(a.type == STR for a in t.attrs) or op in ("regf", "renf") and any(a.type == STR for a in t.fixed):
            fx = op.endswith("f")
            a = r.choice([a for a in (t.fixed if fx else t.attrs) if a.type == STR])
            hd = (p.fixedAttributeInfo if fx else p.attributeInfo)(a.name)
            s = rstring(r)
            lk = p.lookupFixedIndexedStr if fx else p.lookupIndexedStr
            h.check(lk(hd, s) == (a.strs.index(s) if s in a.strs else -1), "lookup", lambda: "lookup of %r in %r is %r" % (s, a.strs, lk(hd, s)))
            if op.startswith("reg"):
                k = (p.registerFixedIndexedStr if fx else p.registerIndexedStr)(hd, s)
                if s not in a.strs:
                    a.strs.append(s)
                h.check(k == a.strs.index(s), "register", lambda: "registering %r gives %r, strings %r" % (s, k, a.strs))
            elif op.startswith("ren") and a.strs and s not in a.strs:
                k = r.randrange(len(a.strs))
                (p.setFixedIndexedStr if fx else p.setIndexedStr)(hd, k, s)
                a.strs[k] = s
                h.check(lk(hd, s) == k, "rename", "renamed string is found as %r instead of %d" % (lk(hd, s), k))
        elif op == "dup" and t.attrs:
            p.attributeInfo("no such")
        log.append(op)
        if r.random() < .3 or len(t.vals) < 3:
            d = diff(partio, p, t)
            if not h.check(d is None, "history", lambda: "after %s: %s; %s" % (log, d, t.describe())):
                return None, None
    d = diff(partio, p, t)
    h.check(d is None, "history", lambda: "after %s: %s; %s" % (log, d, t.describe()))
    h.count("histories")
    h.count("operations", len(log))
    return p, t


def files(h, r, cpp):
    t = gen(r, maxn=25, position=True, plain=r.random() < .7, maxcount=20, large=True)
    p = build(partio, t, r)
    d = diff(partio, p, t)
    h.check(d is None, "build", lambda: "%s; %s" % (d, t.describe()))
    f = h.tmp + "/a.bgeo"
    c = r.random() < .3
    if r.random() < .5:
        partio.write(f, p, c)
    else:
        partio.write(f, p, c, r.random() < .5)
    ctx = lambda: t.describe()
    # position moves to where the format keeps it
    k = [a.name for a in t.attrs].index("position")
    t2 = Table()
    t2.n, t2.attrs, t2.fixed, t2.fvals = t.n, [t.attrs[k]] + t.attrs[:k] + t.attrs[k + 1:], t.fixed, t.fvals
    t2.vals = [[v[k]] + v[:k] + v[k + 1:] for v in t.vals]
    q = partio.read(f) if r.random() < .5 else partio.read(f, False)
    d = diff(partio, q, t2)
    h.check(d is None, "bgeo", lambda: "written and read through Python: %s; %s" % (d, t.describe()))
    cd = cpp("dump", f)
    parity(h, "dump", canon(q), cd, ctx)
    # every way of reading
    for name, x in (("readVerbose", partio.readVerbose(f)), ("readCachedVerbose", partio.readCachedVerbose(f, r.random() < .5))):
        h.check(isinstance(x, tuple) and len(x) == 2 and x[1] == "", name, lambda: "%s returned %r" % (name, x))
        parity(h, name, canon(x[0]), cd, ctx)
        if name == "readCachedVerbose":
            x2 = partio.readCachedVerbose(f, False)[0]
            h.check(x2.this == x[0].this or int(x2.this) == int(x[0].this), "cached", "two cached reads give two sets")
            del x2
            parity(h, name, canon(x[0]), cd, ctx)
    ch = cpp("headers", f)
    parity(h, "headers", schema(partio.readHeaders(f)), ch, ctx)
    parity(h, "headers", schema(partio.readHeadersVerbose(f)[0]), ch, ctx)
    # a file the C++ client writes; the same from Python, byte for byte
    for ext in r.sample(FMT, 3):
        comp = r.random() < .3
        g1, g2 = h.tmp + "/p." + ext, h.tmp + "/c." + ext
        for g in (g1, g2):
            if os.path.exists(g):
                os.unlink(g)
        partio.write(g1, q, comp, False)
        cpp("rewrite", f, g2, int(comp))
        h.check(os.path.exists(g1) == os.path.exists(g2), "write." + ext, lambda: "only one side wrote a %s file; %s" % (ext, ctx()))
        if os.path.exists(g1) and os.path.exists(g2):
            a, b = open(g1, "rb").read(), open(g2, "rb").read()
            if ext == "prt" and len(a) == len(b):
                pass
            h.check(a == b, "bytes." + ext, lambda: "Python and C++ write different %s files (%d and %d bytes); %s" % (ext, len(a), len(b), ctx()))
            if ext != "rib":
                parity(h, "read." + ext, canon(partio.read(g2, False)), cpp("dump", g2), ctx)
                hh = partio.readHeaders(g2, False)
                parity(h, "headers." + ext, schema(hh) if hh is not None else "null\n", cpp("headers", g2), ctx)
            h.count("formats." + ext)
    # queries
    q.sort()
    pos = [v[0] for v in t2.vals]
    fin = [v for v in pos if all(math.isfinite(x) and abs(x) < 1e15 for x in v)]
    if len(fin) == len(pos):
        for _ in range(3):
            base = r.choice(fin) if fin else (0.0, 0.0, 0.0)
            lo = [f32(x - r.choice([0, .5, 5, 100])) for x in base]
            hi = [f32(x + r.choice([0, .5, 5, 100])) for x in base]
            got = q.findPoints(tuple(lo), r.choice([tuple, list])(hi))
            ref = [i for i, v in enumerate(pos) if all(l <= x <= u for l, x, u in zip(lo, v, hi))]
            h.check(sorted(got) == ref and all(type(i) is int for i in got), "findPoints", lambda: "box %s..%s gives %s instead of %s" % (lo, hi, got, ref))
            cb = cpp("box", f, *["%.9g" % x for x in lo + hi])
            h.check("".join("%d\n" % i for i in got) == cb, "findPoints.cpp", lambda: "box query: Python %s, C++ %s" % (got, cb))
            n, rad = r.choice([1, 2, 5, 50]), f32(r.choice([0.5, 3.0, 50.0, 1e6]))
            got = q.findNPoints(tuple(base), n, rad)
            cn = cpp("near", f, *["%.9g" % x for x in base], n, "%.9g" % rad)
            h.check("".join("%d %08x\n" % (i, bits(x)) for i, x in got) == cn, "findNPoints", lambda: "nearest to %s: Python %s, C++ %s" % (base, got, cn))
            h.check(len(got) <= n and len({i for i, _ in got}) == len(got) and all(0 <= i < t.n for i, _ in got), "findNPoints.set", lambda: "nearest: %s" % got)
            h.count("queries")
        # a cached set that was asked to be sorted answers them too, also when it had been cached before
        keep = [partio.readCachedVerbose(f, False)[0]] if r.random() < .5 else []
        keep.append(partio.readCachedVerbose(f, True)[0])
        if r.random() < .3:
            keep.append(partio.readCachedVerbose(f, False)[0])
        base = r.choice(fin) if fin else (0.0, 0.0, 0.0)
        for k in keep:
            for a, b in ((k.findPoints((-1e15,) * 3, (1e15,) * 3), q.findPoints((-1e15,) * 3, (1e15,) * 3)), (k.findNPoints(tuple(base), 7, 1e6), q.findNPoints(tuple(base), 7, 1e6))):
                h.check(a == b and len(a) >= (t.n > 0), "cached.query", lambda: "query of a sorted cached set gives %s instead of %s" % (a, b))
        h.count("cached_queries", len(keep))
        del keep, k
    # clone
    novals = lambda s: "\n".join(l for l in s.split("\n") if not l.startswith("v"))      # the schema does not include values
    names = [a.name for a in t2.attrs] + [a.name for a in t2.fixed]
    for _ in range(2):
        m = {}
        for nm in r.sample(names, r.randint(0, min(3, len(names)))):
            m[nm] = "" if r.random() < .1 else rname(r, set(names), True) + "_new"
        if r.random() < .2:
            m["not there"] = "whatever"
        data = r.random() < .7
        pm = m if r.random() < .8 else {k.encode("utf8"): v.encode("utf8") for k, v in m.items()}
        if not m and r.random() < .7:
            c = partio.clone(q, data) if r.random() < .5 else partio.clone(q, data, None)
        else:
            c = partio.clone(q, data, pm)
        flat = [x for kv in m.items() for x in kv]
        parity(h, "clone", canon(c), cpp("clone", f, int(data), *flat), lambda: "clone with %s, %s" % (m, ctx()))
        h.count("clones")
        c = r.choice([lambda: partio.cloneSchema(q, pm), lambda: partio.cloneSchema(other=q, attrNameMap=pm)])()
        parity(h, "cloneSchema.map", novals(canon(c)), novals(cpp("cloneSchema", f, *flat)), lambda: "cloneSchema with %s, %s" % (m, ctx()))
    parity(h, "cloneSchema", novals(canon(partio.cloneSchema(q))), novals(cpp("cloneSchema", f)), ctx)
    # merge
    td = gen(r, maxn=12, position=True)
    if r.random() < .7:
        for tt in (t2, td):
            for nm in ("id", "id2"):
                if not any(a.name == nm for a in tt.attrs) and r.random() < .9:
                    tt.attrs.append(Attr(nm, INT, 1))
                    for v in tt.vals:
                        v.append([r.randint(0, 9)])
    else:
        td.attrs = t2.attrs if r.random() < .5 else td.attrs
        td.vals = [[rvalue(r, a) for a in td.attrs] for _ in range(td.n)]
    fa, fb = h.tmp + "/ma.bgeo", h.tmp + "/mb.bgeo"
    partio.write(fa, build(partio, t2), False, False)
    partio.write(fb, build(partio, td), False, False)
    a, b = partio.read(fa, False), partio.read(fb, False)
    ids = r.choice([(), ("id",), ("id", "id2"), ("", "id"), ("nope",)])
    partio.merge(a, b, *ids)
    ids = tuple(ids) + ("",) * (2 - len(ids))
    parity(h, "merge", canon(a), cpp("merge", fa, fb, *ids), lambda: "merge by %s, %s + %s" % (ids, t2.describe(), td.describe()))
    h.count("merges")
    # clustering
    if len(fin) == len(pos):
        z = partio.read(fa, False)
        args = (r.choice([1, 3, 10]), r.choice([0.5, 5.0, 100.0]), r.choice([0.0, 30.0, 100.0]), r.choice([1, 2, 5]), r.choice([0.1, 1.0, 3.0]))
        small = all(abs(x) < 20 for v in pos for x in v)
        if small:
            parity(h, "cluster", canon(partio.computeClustering(z, *args)), cpp("cluster", fa, *args), lambda: "clustering %s of %s" % (args, t2.describe()))
            h.count("clusterings")
    h.distinct("files", t.key())
    h.sample("files: " + t.describe())


def big(h, r, cpp):
    """sizes beyond what fits in 8 or 16 bits: particles, strings, components, attributes, requested neighbours"""
    t = Table()
    t.n = r.choice([r.randint(257, 2000), r.randint(32769, 36000), r.randint(65537, 67000)])
    kind = r.choice(["strings", "components", "attributes", "plain"]) if t.n < 3000 else "plain"
    P = Attr("position", VECTOR, 3)
    t.attrs = [P, Attr("id", INT, 1)]
    if kind == "strings":
        S = Attr("name", STR, 1)
        S.strs = ["s%d" % i for i in range(r.choice([260, 300, 33000, 66000]))]
        t.attrs.append(S)
    elif kind == "components":
        t.attrs.append(Attr("wide", r.choice([FLOAT, INT]), r.choice([255, 256, 257, 300])))
    elif kind == "attributes":
        t.attrs += [Attr("a%d" % i, r.choice([FLOAT, INT]), 1) for i in range(r.randint(60, 300))]
        t.n = r.randint(1, 300)
    elif r.random() < .5:
        t.attrs.append(Attr("w", FLOAT, 1))
    sc = r.choice([1, 10, 100])
    t.vals = [[[f32(r.uniform(-sc, sc)) for _ in range(3)], [r.choice([i, -i, i << 14])]] + [rvalue(r, a, True) for a in t.attrs[2:]] for i in range(t.n)]
    p = partio.create()
    p.addParticles(t.n)
    hs = []
    for a in t.attrs:
        hd = p.addAttribute(a.name, a.type, a.count)
        hs.append(hd)
        for i, s in enumerate(a.strs):
            h.check(p.registerIndexedStr(hd, s) == i, "big.register", "string %d of %d" % (i, len(a.strs)))
    for i in range(t.n):
        for hd, v in zip(hs, t.vals[i]):
            p.set(hd, i, tuple(v))
    ctx = lambda: "n=%d, %s, scale %g" % (t.n, kind, sc)
    h.check(p.numParticles() == t.n and p.numAttributes() == len(t.attrs), "big.count", ctx)
    for i in [0, t.n - 1] + [r.randrange(t.n) for _ in range(50)]:
        for hd, v, a in zip(hs, t.vals[i], t.attrs):
            g = p.get(hd, i)
            h.check(list(g) == v, "big.get", lambda: "%s: particle %d of %s is %s instead of %s" % (ctx(), i, a.name, g, v))
    for a, hd in zip(t.attrs, hs):
        if a.strs:
            h.check(list(p.indexedStrs(hd)) == a.strs, "big.strs", ctx)
            for _ in range(20):
                i = r.randrange(len(a.strs))
                h.check(p.lookupIndexedStr(hd, a.strs[i]) == i, "big.lookup", lambda: "%s: string %d is found as %r" % (ctx(), i, p.lookupIndexedStr(hd, a.strs[i])))
    f = h.tmp + "/big.bgeo"
    h.check(partio.write(f, p, r.random() < .5, False) is None, "big.write", ctx)
    cd = cpp("dump", f)
    parity(h, "big.dump", canon(p), cd, ctx)
    p.sort()
    for _ in range(2):
        lo = [f32(r.choice([-2 * sc, r.uniform(-sc, sc)])) for _ in range(3)]
        hi = [f32(r.choice([2 * sc, x + r.uniform(0, sc)])) for x in lo]
        got = p.findPoints(tuple(lo), tuple(hi))
        ref = [i for i, v in enumerate(t.vals) if all(l <= x <= u for l, x, u in zip(lo, v[0], hi))]
        h.check(sorted(got) == ref, "big.findPoints", lambda: "%s: box %s..%s gives %d points instead of %d, the first that differ %s" % (ctx(), lo, hi, len(got), len(ref), sorted(set(got) ^ set(ref))[:5]))
        n = r.choice([3, 255, 256, 257, 1000, 5000, 40000])
        if n > 5000 and t.n > 40000:
            n = 5000
        c = t.vals[r.randrange(t.n)][0]
        rad = f32(sc * r.choice([.1, .5, 10]))
        got = p.findNPoints(tuple(c), n, rad)
        ds = sorted(sum((a - b) ** 2 for a, b in zip(c, v[0])) for v in t.vals)
        m = len([d for d in ds if d <= rad * rad * (1 - 1e-5)])
        M = len([d for d in ds if d <= rad * rad * (1 + 1e-5)])
        h.check(min(n, m) <= len(got) <= min(n, M), "big.findNPoints", lambda: "%s: the %d nearest within %g are %d, expected %d" % (ctx(), n, rad, len(got), min(n, m)))
        h.check(len({i for i, _ in got}) == len(got) and all(0 <= i < t.n and abs(q - sum((a - b) ** 2 for a, b in zip(c, t.vals[i][0]))) <= 1e-4 * sc * sc for i, q in got), "big.findNPoints.set", ctx)
        if got:
            h.check(max(q for _, q in got) <= ds[len(got) - 1] * (1 + 1e-4) + 1e-6 * sc * sc, "big.findNPoints.far", lambda: "%s: the farthest of %d is at %g instead of %g" % (ctx(), len(got), max(q for _, q in got), ds[len(got) - 1]))
        h.count("big_queries")
    c = partio.clone(p, True)
    parity(h, "big.clone", canon(c), canon(p), ctx)
    h.count("big_sets")
    h.distinct("big", t.n, kind, sc, tuple(t.vals[0][0]))


def case(h, r):
    if h.case % 97 == 50:
        return big(h, r, h.cpp)
    if h.case % 3 == 0:
        p, t = history(h, r)
        if t:
            h.distinct("history", t.key())
            h.check([partio.TypeName(i) for i in range(5)] == TYPES and (partio.VECTOR, partio.FLOAT, partio.INT, partio.INDEXEDSTR) == (1, 2, 3, 4), "types", "type names or constants differ")
    else:
        files(h, r, h.cpp)


def setup(h):
    h.cpp = Cpp(os.environ["VERIF_DUMP"])


if __name__ == "__main__":
    main(case, setup)
