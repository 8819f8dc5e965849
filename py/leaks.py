"""P30 through the Python module: repeating any call, refused or not, leaves no memory and no descriptor behind."""
from model import *
import partio, ctypes, gc, contextlib, misuse

LIVE = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
LIVE.restype = ctypes.c_size_t
N = 24


def fds():
    return len(os.listdir("/proc/self/fd"))


def ops(r, h, p, t):
    f = h.tmp + "/l.bgeo"
    bad = h.tmp + "/bad.bgeo"
    A = p.attributeInfo(r.randrange(len(t.attrs))) if t.attrs else None
    F = p.fixedAttributeInfo(r.randrange(len(t.fixed))) if t.fixed else None
    out = [("create", lambda: partio.create()),
           ("read", lambda: partio.read(f)), ("readHeaders", lambda: partio.readHeaders(f)), ("readVerbose", lambda: partio.readVerbose(f)), ("readHeadersVerbose", lambda: partio.readHeadersVerbose(f)),
           ("readCachedVerbose", lambda: partio.readCachedVerbose(f, r.random() < .5)), ("read.missing", lambda: partio.read(f + "x", False)), ("readVerbose.missing", lambda: partio.readVerbose(h.tmp + "/none.bgeo")),
           ("read.damaged", lambda: partio.read(bad, False)),
           ("clone", lambda: partio.clone(p, True)), ("clone.map", lambda: partio.clone(p, False, {"position": "other", b"x": b"y", "z": "w"})), ("cloneSchema", lambda: partio.cloneSchema(p)),
           ("clone.badmap", lambda: partio.clone(p, True, {"a": "\ud800"})),
           ("cluster", lambda: partio.computeClustering(p, 3, 1.0, 50.0, 2, 1.0)), ("cluster.fail", lambda: partio.computeClustering(partio.create(), 3, 1.0, 50.0, 2, 1.0)),
           ("write", lambda: partio.write(h.tmp + "/o.bgeo", p, r.random() < .5, False)), ("write.fail", lambda: partio.write(h.tmp + "/no/o.bgeo", p, False, False)),
           ("attributeInfo", lambda: (p.attributeInfo("position"), p.attributeInfo("none"), p.fixedAttributeInfo("q"))), ("attributeInfo.bad", lambda: p.attributeInfo(10**6)),
           ("TypeName", lambda: partio.TypeName(2)), ("sort", lambda: p.sort()), ("findPoints", lambda: p.findPoints((-9.0, -9.0, -9.0), (9.0, 9.0, 9.0))), ("findNPoints", lambda: p.findNPoints((0.0, 0.0, 0.0), 5, 10.0)),
           ("findPoints.bad", lambda: p.findPoints((0.0, 0.0), (1.0, 1.0, 1.0))), ("findNPoints.bad", lambda: p.findNPoints((1.0, None, 2.0), 5, 10.0)), ("merge.none", lambda: partio.merge(p, None))]
    if A is not None:
        one = 1.5 if A.type in (VECTOR, FLOAT) else 100000
        out += [("indexedStrs", lambda: p.indexedStrs(A)), ("lookup", lambda: p.lookupIndexedStr(A, "zzz")), ("register", lambda: p.registerIndexedStr(A, "zzz")), ("register.bad", lambda: p.registerIndexedStr(A, None)),
                ("get.bad", lambda: p.get(A, 10**9)), ("get.none", lambda: p.get(None, 0))]
        if t.n:
            out += [("get", lambda: p.get(A, 0)), ("set", lambda: p.set(A, 0, (one,) * A.count)), ("set.short", lambda: p.set(A, 0, (one,) * (A.count + 1))), ("set.elem", lambda: p.set(A, 0, [one] * (A.count - 1) + [object()])),
                    ("set.list", lambda: p.set(A, 0, misuse.Evil(A.count, "last"))), ("set.range", lambda: p.set(A, 0, [10**400] * A.count))]
    if F is not None:
        one2 = 1.5 if F.type in (VECTOR, FLOAT) else 100000
        out += [("getFixed", lambda: p.getFixed(F)), ("setFixed", lambda: p.setFixed(F, (one2,) * F.count)), ("setFixed.elem", lambda: p.setFixed(F, [one2] * (F.count - 1) + ["x"])), ("fixedIndexedStrs", lambda: p.fixedIndexedStrs(F))]
    return out


def repeat(f):
    for _ in range(N):
        try:
            f()
        except Exception:
            pass


def case(h, r):
    t = gen(r, maxn=12, position=True, finite=True)
    if not any(a.name == "id" for a in t.attrs):
        t.attrs.append(Attr("id", INT, 1))
        for i, v in enumerate(t.vals):
            v.append([i])
    p = build(partio, t)
    partio.write(h.tmp + "/l.bgeo", p, r.random() < .5, False)
    b = open(h.tmp + "/l.bgeo", "rb").read()
    open(h.tmp + "/bad.bgeo", "wb").write(b[:r.randrange(len(b))])
    ol = ops(r, h, p, t)
    r.shuffle(ol)
    labs = []
    for lab, f in ol[:12]:
        repeat(f)
        grew, lost, n0 = [], [], fds()
        for _ in range(3):
            gc.collect()
            before = LIVE()
            repeat(f)
            gc.collect()
            grew.append(LIVE() - before)
            lost.append(fds() - n0)
        labs.append(lab)
        h.count("calls_balanced", N * 4)
        h.check(min(grew) < N * 8, "pyleak:%s" % lab, lambda: "three times %d calls of %s left %s bytes allocated" % (N, lab, grew))
        h.check(not (0 < lost[0] < lost[1] < lost[2]), "pyfd:%s" % lab, lambda: "calls of %s left descriptors open: %s" % (lab, lost))
    h.distinct(t.key(), labs)


if __name__ == "__main__":
    main(case)
