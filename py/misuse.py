"""P24: every misuse raises or answers None/False/-1, changes nothing and never kills the interpreter."""
from model import *
import partio, contextlib, io


class Evil:
    """a sequence whose methods misbehave"""
    def __init__(self, n, mode, p=None):
        self.n, self.mode, self.p = n, mode, p

    def __len__(self):
        if self.mode == "len":
            raise RuntimeError("len")
        if self.mode == "hugelen":
            return 2**31 + self.n
        return self.n

    def __getitem__(self, i):
        if self.mode == "item" and i >= self.n - 1:
            raise KeyError("item")
        if self.mode == "last" and i == self.n - 1:
            return "x"
        if i >= self.n:
            raise IndexError(i)
        return 1


class EvilFloat(float):
    pass


def bad_handles(r, p, t, q, fixed):
    """handles that do not belong to p"""
    out = [("None", None), ("int", 5), ("str", "position"), ("empty", partio.FixedAttribute() if fixed else partio.ParticleAttribute())]
    mine = t.fixed if fixed else t.attrs
    info = (lambda s, i: s.fixedAttributeInfo(i)) if fixed else (lambda s, i: s.attributeInfo(i))
    nq = q.numFixedAttributes() if fixed else q.numAttributes()
    for i in range(nq):
        h = info(q, i)
        if i >= len(mine) or (mine[i].type, mine[i].count) != (h.type, h.count):
            out.append(("foreign", h))
    other = p.attributeInfo(0) if fixed and p.numAttributes() else p.fixedAttributeInfo(0) if not fixed and p.numFixedAttributes() else None
    if other is not None:
        out.append(("otherkind", other))
    if mine:
        h = info(p, r.randrange(len(mine)))
        m = r.random()
        if m < .5:
            h.count = r.choice([h.count + 1, h.count + 1000, 0, -1, 2**31 - 1, 17])
            if (h.count) != mine[[a.name for a in mine].index(h.name)].count:
                out.append(("count", h))
        else:
            ty = r.choice([x for x in (0, 1, 2, 3, 4, 7, -1) if x != h.type])
            h.type = ty
            out.append(("type", h))
        with contextlib.redirect_stderr(io.StringIO()):
            dup = p.addFixedAttribute(mine[0].name, mine[0].type, mine[0].count) if fixed else p.addAttribute(mine[0].name, mine[0].type, mine[0].count)
        out.append(("duplicate", dup))
    return out


def bad_index(r, n):
    return r.choice([n, n, n + 1, n + 7, n + 10**6, -1, -1, -2, -n - 1, 2**31, 2**31 - 1 if n < 2**31 - 1 else n, 2**32, 2**32 + max(n - 1, 0), 2**62, 2**63 - 1, 2**63, 2**64, 2**64 + 0, -2**31, -2**63, -2**64, 0.5, "0", None, [], (0,), 10**40])


def bad_value(r, a, p):
    c = a.count
    good = [1.0 if a.isf() else 1] * c
    k = []
    k.append(("short", tuple(good[:-1])))
    k.append(("long", tuple(good + good[:1])))
    k.append(("verylong", tuple(good * 50)))
    k.append(("none", None))
    k.append(("int", 3))
    k.append(("float", 3.5))
    k.append(("obj", object()))
    k.append(("gen", (x for x in good)))
    k.append(("set", set(range(c))))
    k.append(("str", "x" * c))
    if c:
        w = list(good)
        j = r.randrange(c)
        w[j] = r.choice([None, "1", [1], (1.0,), object(), {}, 1j])
        k += [("elem", w), ("elem", tuple(w))] * 2
        w = list(good)
        w[c - 1] = 10**400 if a.isf() else r.choice([2**31, -2**31 - 1, 2**32, 2**63, 2**64, 10**30])
        k.append(("range", w))
        if not a.isf():
            w = list(good)
            w[c - 1] = 1.5
            k.append(("floatforint", w))
        k.append(("eviltail", Evil(c, "last")))
        k.append(("evilitem", Evil(c, "item")))
    k.append(("evillen", Evil(c, "len")))
    k.append(("hugelen", Evil(c, "hugelen")))
    k.append(("dict", {i: good[0] for i in range(c + 1)}))
    lab, v = r.choice(k)
    return lab, v


def bad_center(r):
    return r.choice([(), (1.0,), (1.0, 2.0), (1.0, 2.0, 3.0, 4.0), tuple([1.0] * 16), tuple([1.0] * 17), tuple([1.0] * 1000), [1.0] * 100000, None, 5, "abc", "", object(),
                     (1.0, None, 2.0), ("1", "2", "3"), (1.0, 2.0, [3.0]), {1.0: 2, 2.0: 3, 3.0: 4}, Evil(3, "item"), Evil(3, "last"), Evil(3, "len"), Evil(0, "hugelen")])


BADSTR = [None, 5, 1.5, [], "\ud800", object(), ("a",)]


def malformed(r, h, p):
    ext = r.choice(["bgeo", "geo", "bhclassic", "pdb", "pda", "pdc", "prt", "ptc", "bin", "mc", "pts", "ptf", "pdb32", "pdb64", "bgeo.gz"])
    path = "%s/m%d.%s" % (h.tmp, r.randrange(4), ext)
    if r.random() < .5 and ext not in ("mc", "pts"):
        partio.write(path, p, r.random() < .3, False)
        try:
            b = bytearray(open(path, "rb").read())
        except OSError:
            b = bytearray()
        if b and r.random() < .6:
            del b[r.randrange(len(b)):]
        for _ in range(r.randint(0, 4)):
            if b:
                b[r.randrange(len(b))] = r.getrandbits(8)
    else:
        b = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 4, 20, 200, 2000])))
    if r.random() < .3 and p.numAttributes():
        # indexed strings that are not UTF-8
        s = partio.create()
        s.addParticle()
        s.set(s.addAttribute("position", partio.VECTOR, 3), 0, (1, 2, 3))
        for hh, reg in ((s.addAttribute("s", partio.INDEXEDSTR, 1), s.registerIndexedStr), (s.addFixedAttribute("f", partio.INDEXEDSTR, 1), s.registerFixedIndexedStr)):
            for k in range(3):
                reg(hh, "PLACEHOLDER%d" % k)
        s.set(s.attributeInfo("s"), 0, (0,))
        s.setFixed(s.fixedAttributeInfo("f"), (0,))
        path = h.tmp + "/u.bgeo"
        partio.write(path, s, False, False)
        b = open(path, "rb").read().replace(b"PLACEHOLDER", r.choice([b"\xff\xfe\xc3PLACEHO", b"\x80PLACEHOLDE", b"PLACEHOLDE\xe9"]))
        h.count("files_with_other_encodings")
    open(path, "wb").write(b)
    return path


def candidates(r, h, p, t, q, tq):
    """(label, thunk, strict).  strict: the call is certainly misuse and must be refused"""
    n = t.n
    path = h.tmp
    c = []
    add = lambda lab, f, strict=True: c.append((lab, f, strict))
    A = r.randrange(len(t.attrs)) if t.attrs else None
    F = r.randrange(len(t.fixed)) if t.fixed else None
    hb = bad_handles(r, p, t, q, False)
    fb = bad_handles(r, p, t, q, True)
    lab, bh = r.choice(hb)
    labf, bf = r.choice(fb)
    gi = r.randrange(n) if n else 0
    add("get.handle." + lab, lambda: p.get(bh, gi))
    add("set.handle." + lab, lambda: p.set(bh, gi, (1.0,) * (bh.count if 0 < getattr(bh, "count", 0) < 100 else 1)))
    add("set.handle." + lab, lambda: p.set(bh, gi, (1,) * (bh.count if 0 < getattr(bh, "count", 0) < 100 else 1)))
    add("getFixed.handle." + labf, lambda: p.getFixed(bf))
    add("setFixed.handle." + labf, lambda: p.setFixed(bf, (1,) * (bf.count if 0 < getattr(bf, "count", 0) < 100 else 1)))
    add("indexedStrs.handle." + lab, lambda: p.indexedStrs(bh), lab not in ("count", "type"))
    add("fixedIndexedStrs.handle." + labf, lambda: p.fixedIndexedStrs(bf), labf not in ("count", "type"))
    add("lookupIndexedStr.handle." + lab, lambda: p.lookupIndexedStr(bh, "zz-not-there"))
    add("lookupFixedIndexedStr.handle." + labf, lambda: p.lookupFixedIndexedStr(bf, "zz-not-there"))
    if lab not in ("count", "type", "foreign"):
        add("registerIndexedStr.handle." + lab, lambda: p.registerIndexedStr(bh, "new"))
        add("setIndexedStr.handle." + lab, lambda: p.setIndexedStr(bh, 0, "new"))
    if lab == "foreign":
        nm = bh.name
        far = [q.attributeInfo(i) for i in range(len(t.attrs), q.numAttributes())]
        if far:
            fh = r.choice(far)
            add("registerIndexedStr.handle.far", lambda: p.registerIndexedStr(fh, "new"))
            add("setIndexedStr.handle.far", lambda: p.setIndexedStr(fh, 0, "new"))
            add("indexedStrs.handle.far", lambda: p.indexedStrs(fh))
    if labf not in ("count", "type", "foreign"):
        add("registerFixedIndexedStr.handle." + labf, lambda: p.registerFixedIndexedStr(bf, "new"))
        add("setFixedIndexedStr.handle." + labf, lambda: p.setFixedIndexedStr(bf, 0, "new"))
    if labf == "foreign":
        far = [q.fixedAttributeInfo(i) for i in range(len(t.fixed), q.numFixedAttributes())]
        if far:
            ff = r.choice(far)
            add("registerFixedIndexedStr.handle.far", lambda: p.registerFixedIndexedStr(ff, "new"))
            add("setFixedIndexedStr.handle.far", lambda: p.setFixedIndexedStr(ff, 0, "new"))
            add("fixedIndexedStrs.handle.far", lambda: p.fixedIndexedStrs(ff))
    if A is not None:
        a = t.attrs[A]
        ha = p.attributeInfo(A)
        bi = bad_index(r, n)
        good = tuple([1.0 if a.isf() else 1] * a.count)
        add("get.index", lambda: p.get(ha, bi))
        add("set.index", lambda: p.set(ha, bi, good))
        lv, v = bad_value(r, a, p)
        if n:
            add("set.value." + lv, lambda: p.set(ha, gi, v))
            add("set.value." + lv, lambda: p.set(ha, gi, v))
        tok = r.choice([len(a.strs), len(a.strs) + 1, -1, 2**31 - 1, -2**31, 2**31, 2**40, "0", None, 1.5, 10**30])
        add("setIndexedStr.token", lambda: p.setIndexedStr(ha, tok, "other"))
        bs = r.choice(BADSTR)
        add("registerIndexedStr.str", lambda: p.registerIndexedStr(ha, bs))
        add("lookupIndexedStr.str", lambda: p.lookupIndexedStr(ha, bs))
        add("setIndexedStr.str", lambda: p.setIndexedStr(ha, 0, bs))
        add("get.args", lambda: p.get(ha))
        add("get.args", lambda: p.get())
        add("set.args", lambda: p.set(ha, 0))
        add("get.self", lambda: partio.ParticlesData.get(r.choice([None, 5, "x", ha]), ha, 0))
        add("set.self", lambda: partio.ParticlesDataMutable.set(None, ha, 0, good))
        add("handle.count", lambda: setattr(ha, "count", r.choice(["x", None, 1.5, 2**40])))
        add("handle.name", lambda: setattr(ha, "name", r.choice([None, 5, []])))
        add("handle.type", lambda: setattr(ha, "type", r.choice([None, "INT", 1.5])))
    if F is not None:
        a2 = t.fixed[F]
        hf = p.fixedAttributeInfo(F)
        lv2, v2 = bad_value(r, a2, p)
        add("setFixed.value." + lv2, lambda: p.setFixed(hf, v2))
        add("setFixed.value." + lv2, lambda: p.setFixed(hf, v2))
        tok2 = r.choice([len(a2.strs), -1, 2**31 - 1, 2**40, "0", None])
        add("setFixedIndexedStr.token", lambda: p.setFixedIndexedStr(hf, tok2, "other"))
        bs2 = r.choice(BADSTR)
        add("registerFixedIndexedStr.str", lambda: p.registerFixedIndexedStr(hf, bs2))
        add("lookupFixedIndexedStr.str", lambda: p.lookupFixedIndexedStr(hf, bs2))
        add("getFixed.self", lambda: partio.ParticlesData.getFixed(None, hf))
    bn = r.choice([None, 1.5, [], "\ud800", 2**40, -1, -2**31, p.numAttributes(), p.numAttributes() + 5, 2**31 - 1, "no such attribute", "", (0,)])
    if not (bn == "" and any(a.name == "" for a in t.attrs)):
        add("attributeInfo", lambda: p.attributeInfo(bn))
        add("readHeaders.attributeInfo", lambda: partio.ParticlesInfo.attributeInfo(p, bn))
    bnf = r.choice([None, 1.5, [], "\ud800", 2**40, -1, p.numFixedAttributes(), 2**31 - 1, "no such attribute"])
    add("fixedAttributeInfo", lambda: p.fixedAttributeInfo(bnf))
    bc = bad_center(r)
    add("findNPoints.center", lambda: p.findNPoints(bc, 3, 1.0))
    add("findPoints.box", lambda: p.findPoints(bc, (1.0, 1.0, 1.0)))
    add("findPoints.box", lambda: p.findPoints((0.0, 0.0, 0.0), bc))
    bnp = r.choice([None, "3", 1.5, 2**31, -2**31 - 1, []])
    add("findNPoints.n", lambda: p.findNPoints((0.0, 0.0, 0.0), bnp, 1.0))
    add("findNPoints.radius", lambda: p.findNPoints((0.0, 0.0, 0.0), 3, r.choice([None, "1", []])))
    add("findNPoints.odd", lambda: p.findNPoints((0.0, 0.0, 0.0), r.choice([0, -1, 10**6]), r.choice([0.0, -1.0, float("nan"), float("inf")])), False)
    add("addParticles", lambda: p.addParticles(r.choice([None, "3", 1.5, 2**31, -1, -5, -2**31, []])))
    add("addAttribute.name", lambda: p.addAttribute(r.choice([None, 5, "\ud800", []]), partio.INT, 1))
    add("addAttribute.type", lambda: p.addAttribute("zz", r.choice([None, "INT", 1.5, 2**40]), 1))
    add("addAttribute.count", lambda: p.addAttribute("zz", partio.INT, r.choice([None, "1", 1.5, 2**31, -1, -7, -2**31])))
    add("addFixedAttribute.name", lambda: p.addFixedAttribute(r.choice([None, 5, "\ud800", []]), partio.INT, 1))
    add("addFixedAttribute.count", lambda: p.addFixedAttribute("zz", partio.INT, r.choice([None, "1", 1.5, 2**31, -1, -7, -2**31])))
    add("self.none", lambda: r.choice([lambda: partio.ParticlesInfo.numParticles(None), lambda: partio.ParticlesInfo.attributeInfo(None, 0), lambda: partio.ParticlesInfo.attributeInfo(None, "x"),
                                       lambda: partio.ParticlesDataMutable.sort(None), lambda: partio.ParticlesDataMutable.addParticle(None), lambda: partio.ParticlesInfo.numAttributes(None),
                                       lambda: partio.ParticlesData.findNPoints(None, (0.0, 0.0, 0.0), 1, 1.0), lambda: partio.ParticlesData.findPoints(None, (0.0, 0.0, 0.0), (1.0, 1.0, 1.0)),
                                       lambda: partio.ParticlesDataMutable.addParticles(None, 3), lambda: partio.ParticlesDataMutable.addAttribute(None, "a", 2, 1),
                                       lambda: partio.ParticleAttribute.name.fget(None), lambda: partio.ParticlesInfo.fixedAttributeInfo(None, "x"), lambda: partio.ParticlesInfo.numFixedAttributes(None)])())
    # files
    rd = r.choice([partio.read, partio.readHeaders, partio.readVerbose, partio.readHeadersVerbose, lambda f: partio.readCachedVerbose(f, r.random() < .5)])
    miss = r.choice([path + "/missing.bgeo", path + "/missing.pdb", path + "/missing.xyz", path + "/no/such/dir.geo", path, path + "/", "", "noext", ".bgeo", path + "/a\u00e9.ptc", path + "/dir.bgeo"])
    add("read.missing", lambda: unwrap(rd(miss)))
    add("read.args", lambda: rd(r.choice([None, 5, 1.5, [], "\ud800", ["x.bgeo"]])))
    add("readVerbose.args", lambda: partio.readVerbose())
    mal = malformed(r, h, p)
    def usemal():
        x = unwrap(rd(mal))
        if x is not None:
            use(r, x)
        return None
    add("read.malformed", usemal)
    def headermisuse():
        f = path + "/ok.bgeo"
        partio.write(f, q, False, False)
        x = r.choice([lambda: partio.readHeadersVerbose(f)[0], lambda: partio.readHeaders(f)])()
        for i in range(x.numAttributes()):
            a = x.attributeInfo(i)
            for fn in (lambda: x.get(a, 0), lambda: x.indexedStrs(a), lambda: x.set(a, 0, (1.0,)), lambda: x.sort(), lambda: x.addParticle(), lambda: partio.ParticlesData.get(x, a, 0),
                       lambda: partio.clone(x, True), lambda: partio.write(path + "/o.bgeo", x), lambda: x.findPoints((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)), lambda: partio._print(x)):
                refused(fn, None, h, "headers")
        return None
    add("headers.data", headermisuse)
    add("write.where", lambda: partio.write(r.choice([path + "/no/dir/x.bgeo", path + "/x.unknown", path, "", "x", path + "/no/dir/x.ptc", path + "/no/dir/x.pdb", path + "/no/dir/x.geo"]), p))
    add("write.args", lambda: partio.write(r.choice([None, 5, "\ud800"]), p))
    add("write.args", lambda: partio.write(path + "/y.bgeo", r.choice([None, 5, "x", h])))
    add("clone.args", lambda: partio.clone(r.choice([None, 5, "x"]), True))
    add("clone.map", lambda: partio.clone(p, True, r.choice([5, "position", [("a", "b")], 1.5])))
    add("clone.map", lambda: partio.clone(p, True, r.choice([{"position": 5}, {5: "x"}, {"\ud800": "x"}, {"position": "\ud800"}, {"position": None}, {None: "x"}, {(1,): [2]}])), False)
    add("cloneSchema.args", lambda: partio.cloneSchema(r.choice([None, 5, "x"])))
    add("cloneSchema.map", lambda: partio.cloneSchema(p, r.choice([{"position": 5}, {"\ud800": "x"}, {"position": "\ud800"}])), False)
    add("merge.args", lambda: partio.merge(p, r.choice([None, 5, "x"])))
    add("merge.args", lambda: partio.merge(None, p))
    add("merge.args", lambda: partio.merge(p, q, r.choice([None, 5, []])))
    add("merge.args", lambda: partio.merge(p, q, "id", r.choice([None, 5, []])))
    add("cluster.args", lambda: partio.computeClustering(None, 3, 1.0, 1.0, 2, 1.0))
    add("cluster.args", lambda: partio.computeClustering(p, "3", 1.0, 1.0, 2, 1.0))
    add("cluster.args", lambda: partio.computeClustering(p, 3, None, 1.0, 2, 1.0))
    if not any(a.name == "position" for a in t.attrs):
        add("cluster.noposition", lambda: partio.computeClustering(p, 3, 1.0, 1.0, 2, 1.0), False)
        add("sort.noposition", lambda: p.sort())
    pr = getattr(partio, "_print")
    add("print.args", lambda: pr(r.choice([None, 5, "x"])))
    add("TypeName", lambda: partio.TypeName(r.choice([None, "x", 1.5, 2**40])))
    add("TypeName.odd", lambda: partio.TypeName(r.choice([5, 99, -1, 2**31 - 1])), False)
    add("construct", lambda: r.choice([partio.ParticlesInfo, partio.ParticlesData, partio.ParticlesDataMutable])())
    return c


def unwrap(x):
    return x[0] if isinstance(x, tuple) else x


def use(r, x):
    """look at everything of a set that came from a malformed file"""
    for i in range(min(x.numAttributes(), 50)):
        a = x.attributeInfo(i)
        if hasattr(x, "get"):
            n = x.numParticles()
            for k in {0, n - 1, n // 2}:
                if 0 <= k < n and a.count < 10000:
                    x.get(a, k)
            for v in x.indexedStrs(a):
                len(v)
    for i in range(min(x.numFixedAttributes(), 50)):
        a = x.fixedAttributeInfo(i)
        if hasattr(x, "getFixed") and a.count < 10000:
            x.getFixed(a)
            for v in x.fixedIndexedStrs(a):
                len(v)


REFUSE = (None, False, -1)


def refused(f, strict, h, lab):
    """calls f; returns (what it did, ok)"""
    try:
        v = f()
    except SystemError as e:
        return "SystemError: %s" % e, False
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e), True
    if not strict or any(v is x for x in REFUSE[:2]) or (isinstance(v, int) and v == -1):
        return repr(v)[:200], True
    if isinstance(v, list) and not v and lab.startswith("find"):
        return "[]", True
    if isinstance(v, (partio.ParticleAttribute, partio.FixedAttribute)) and v.type == NONE:
        return "handle of no attribute", True
    return "returned %s" % repr(v)[:200], False


def case(h, r):
    t = gen(r, maxn=8, position=r.random() < .6, finite=True)
    tq = gen(r, maxn=4, position=r.random() < .5, finite=True)
    p = build(partio, t)
    q = build(partio, tq)
    if r.random() < .4 and t.attrs and t.attrs[0].name == "position":
        p.sort()
    cs = candidates(r, h, p, t, q, tq)
    r.shuffle(cs)
    labs = []
    for lab, f, strict in cs[:r.randint(1, 24)]:
        if os.environ.get("TRACE") or h.a.replay:
            print("call", lab, flush=True)
        what, ok = refused(f, strict, h, lab)
        h.count("refusals" if ok else "accepted")
        labs.append(lab)
        h.check(ok, "accepted:%s" % lab, lambda: "%s: %s (set %s)" % (lab, what, t.describe()))
        d = diff(partio, p, t)
        if not h.check(d is None, "changed:%s" % lab, lambda: "after %s (%s) the set is changed: %s; %s" % (lab, what, d, t.describe())):
            return
        h.count("intact_after_misuse")
    d = diff(partio, q, tq)
    h.check(d is None, "changed:other", lambda: "the other set is changed: %s" % d)
    # still usable
    i = p.addParticle()
    h.check(i == t.n and p.numParticles() == t.n + 1, "unusable", lambda: "addParticle gave %r with %d particles" % (i, t.n))
    for k, a in enumerate(t.attrs):
        v = rvalue(r, a, True)
        p.set(p.attributeInfo(k), i, v)
        h.check(same(a, p.get(p.attributeInfo(k), i), v), "unusable", "set/get after misuse")
    h.distinct(t.key(), labs)
    h.sample("set {%s}: %s" % (t.describe(), ", ".join(labs)))


if __name__ == "__main__":
    main(case, lambda h: os.makedirs(h.tmp + "/dir.bgeo", exist_ok=True))
