"""Reference data set for the Python workloads and comparison with what the module reports."""
from harness import *


class Attr:
    def __init__(self, name, type, count):
        self.name, self.type, self.count, self.strs = name, type, count, []

    def isf(self):
        return self.type in (VECTOR, FLOAT)

    def zero(self):
        return [0.0 if self.isf() else 0] * self.count


class Table:
    def __init__(self):
        self.n = 0
        self.attrs, self.fixed = [], []
        self.vals = []      # [particle][attr] -> list
        self.fvals = []

    def describe(self):
        return "n=%d attrs=%s fixed=%s" % (self.n, [(a.name, TYPES[a.type], a.count, len(a.strs)) for a in self.attrs], [(a.name, TYPES[a.type], a.count, len(a.strs)) for a in self.fixed])

    def key(self):
        return (self.n, [(a.name, a.type, a.count, tuple(a.strs)) for a in self.attrs], [(a.name, a.type, a.count, tuple(a.strs)) for a in self.fixed],
                [[norm(a, v) for a, v in zip(self.attrs, p)] for p in self.vals], [norm(a, v) for a, v in zip(self.fixed, self.fvals)])


def norm(a, v):
    return tuple(("nan" if x != x else bits(x)) for x in v) if a.isf() else tuple(v)


def rvalue(r, a, finite=False):
    v = rvalue1(r, a, finite)
    if a.count > 1 and r.random() < .3:       # neighbouring components that are equal
        k = r.randrange(a.count - 1)
        for i in range(k + 1, r.randint(k + 2, a.count)):
            v[i] = v[k]
    return v


def rvalue1(r, a, finite=False):
    if a.isf():
        return [rfloat(r, finite) for _ in range(a.count)]
    if a.type == STR:
        return [r.randrange(len(a.strs)) if a.strs else 0 for _ in range(a.count)]
    return [rint(r) for _ in range(a.count)]


def gen(r, maxn=30, position=False, finite=False, plain=False, maxcount=6, large=False):
    t = Table()
    big = r.choice(['n', 'strings', 'attrs', 'fixed', 'wide']) if large and r.random() < .04 else None
    used = set()
    if position:
        used.add("position")
        t.attrs.append(Attr("position", VECTOR, 3))
    for lst, k in ((t.attrs, r.choice([0, 1, 2, 3, 5])), (t.fixed, r.choice([0, 0, 1, 2, 4]))):
        if big == ('fixed' if lst is t.fixed else 'attrs'):
            k = r.randint(12, 70)
        if lst is t.fixed:
            used = set()
        for _ in range(k):
            ty = r.choice([VECTOR, FLOAT, INT, STR])
            c = 3 if ty == VECTOR else r.choice([1, 1, 1, 2, 3, 4, r.randint(1, maxcount), 16, 17][:(9 if maxcount > 16 else 7)])
            if big == 'wide' and ty != VECTOR:
                c = r.randint(20, 300)
            a = Attr(rname(r, used, plain), ty, c)
            if ty == STR:
                for i in range(r.choice([60, 255, 257, 300]) if big == 'strings' else r.choice([0, 1, 2, 5, 9])):
                    s = rstring(r, i)
                    if s not in a.strs:
                        a.strs.append(s)
            lst.append(a)
    if position and r.random() < .5:
        r.shuffle(t.attrs)
    t.n = r.choice([0, 1, 2, r.randint(0, maxn), r.randint(0, maxn)])
    if big == 'n':
        t.n = r.choice([1000, 1024, 1025, 4000, r.randint(200, 3000)])
    t.vals = [[rvalue(r, a, finite) for a in t.attrs] for _ in range(t.n)]
    t.fvals = [rvalue(r, a, finite) for a in t.fixed]
    return t


def build(partio, t, r=None):
    p = partio.create()
    if r and r.random() < .5:
        late = r.random() < .5
    else:
        late = False
    def addp():
        if t.n:
            if r and r.random() < .5:
                for _ in range(t.n):
                    p.addParticle()
            else:
                p.addParticles(t.n)
    if not late:
        addp()
    hs = []
    for a in t.attrs:
        h = p.addAttribute(a.name, a.type, a.count)
        for s in a.strs:
            p.registerIndexedStr(h, s)
        hs.append(h)
    if late:
        addp()
    for i, row in enumerate(t.vals):
        for h, v in zip(hs, row):
            p.set(h, i, tuple(v) if not r or r.random() < .7 else list(v))
    for a, v in zip(t.fixed, t.fvals):
        h = p.addFixedAttribute(a.name, a.type, a.count)
        for s in a.strs:
            p.registerFixedIndexedStr(h, s)
        p.setFixed(h, tuple(v))
    return p


def same(a, x, y):
    return len(x) == len(y) and norm(a, x) == norm(a, y)


def diff(partio, p, t, strs=True, order=True):
    """first difference between the module's view and the table, or None"""
    if p is None:
        return "no data set"
    if p.numParticles() != t.n:
        return "numParticles %d instead of %d" % (p.numParticles(), t.n)
    for what, attrs, num, info, get, gs in (("attribute", t.attrs, p.numAttributes, p.attributeInfo, None, p.indexedStrs),
                                            ("fixed attribute", t.fixed, p.numFixedAttributes, p.fixedAttributeInfo, None, p.fixedIndexedStrs)):
        if num() != len(attrs):
            return "%d %ss instead of %d" % (num(), what, len(attrs))
        for i, a in enumerate(attrs):
            if order:
                h = info(i)
                if h is None or (h.name, h.type, h.count) != (a.name, a.type, a.count):
                    return "%s %d is %s instead of %s" % (what, i, h and (h.name, h.type, h.count), (a.name, a.type, a.count))
            h = info(a.name)
            if h is None or (h.name, h.type, h.count) != (a.name, a.type, a.count):
                return "%s '%s' is %s instead of %s" % (what, a.name, h and (h.name, h.type, h.count), (a.name, a.type, a.count))
            if strs and a.type == STR and list(gs(h)) != a.strs:
                return "strings of %s '%s' are %r instead of %r" % (what, a.name, gs(h), a.strs)
            if what == "attribute":
                for k in range(t.n):
                    v = p.get(h, k)
                    if not isinstance(v, tuple) or not same(a, v, t.vals[k][i]):
                        return "value of '%s' of particle %d is %r instead of %r" % (a.name, k, v, t.vals[k][i])
            else:
                v = p.getFixed(h)
                if not isinstance(v, tuple) or not same(a, v, t.fvals[i]):
                    return "value of fixed '%s' is %r instead of %r" % (a.name, v, t.fvals[i])
    return None


def snapshot(partio, p):
    """table of what the module reports"""
    t = Table()
    t.n = p.numParticles()
    for i in range(p.numAttributes()):
        h = p.attributeInfo(i)
        a = Attr(h.name, h.type, h.count)
        a.strs = list(p.indexedStrs(h))
        a.h = h
        t.attrs.append(a)
    for i in range(p.numFixedAttributes()):
        h = p.fixedAttributeInfo(i)
        a = Attr(h.name, h.type, h.count)
        a.strs = list(p.fixedIndexedStrs(h))
        a.h = h
        t.fixed.append(a)
    t.vals = [[list(p.get(a.h, k)) for a in t.attrs] for k in range(t.n)]
    t.fvals = [list(p.getFixed(a.h)) for a in t.fixed]
    return t
