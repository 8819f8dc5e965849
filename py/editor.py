"""P33: the particle editor (partedit) under a window system that only remembers: histories of edits, through the model and through
the widgets, against a reference table; and the files and deltas it saves. P34: the spreadsheet (partinspect) and its filter."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "qtstub"))
from model import *
import partio, contextlib, io as pyio
import Qt
from Qt import QtWidgets, QtCore

W = QtWidgets


def plainvalue(r, a):
    """finite, and zero has one sign: what 'differs' means is then beyond doubt"""
    return [x + 0.0 if a.isf() else x for x in rvalue(r, a, True)]


def table(r, ids):
    t = gen(r, maxn=r.choice([0, 3, 8, 8, 25] if r.random() < .95 else [120]), position=r.random() < .7, finite=True, maxcount=r.choice([4, 4, 16, 40]))
    if t.n > 120:
        t.n = 120
    t.attrs = [a for a in t.attrs if a.name != "id"]
    if ids:
        t.attrs.insert(r.randint(0, len(t.attrs)), Attr("id", INT, 1))
    t.vals = [[plainvalue(r, a) for a in t.attrs] for _ in range(t.n)]
    if r.random() < .5 and t.n > 2:            # particles that look alike
        for _ in range(r.randint(1, 3)):
            t.vals[r.randrange(t.n)] = [list(v) for v in t.vals[r.randrange(t.n)]]
    if ids:
        k = [a.name for a in t.attrs].index("id")
        u = r.sample(range(-50, 250), t.n)
        for row, i in zip(t.vals, u):
            row[k] = [i]
    t.fvals = [plainvalue(r, a) for a in t.fixed]
    return t


def clonetable(t):
    c = Table()
    c.n = t.n
    for x, y in ((t.attrs, c.attrs), (t.fixed, c.fixed)):
        for a in x:
            b = Attr(a.name, a.type, a.count)
            b.strs = list(a.strs)
            y.append(b)
    c.vals = [[list(v) for v in row] for row in t.vals]
    c.fvals = [list(v) for v in t.fvals]
    return c


def schema(t):
    return sorted((a.name, a.type, a.count) for a in t.attrs)


def rowkey(t, row):
    return tuple(sorted((a.name, norm(a, v)) for a, v in zip(t.attrs, row)))


def edits(widget):
    """the line edits of a cell, in order"""
    out = []
    def walk(x):
        if isinstance(x, W.QLineEdit):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, Qt._Layout):
            for y in x._items:
                walk(y)
        elif isinstance(x, Qt.QWidget) and x._layout is not None:
            walk(x._layout)
    walk(widget)
    return out


def find(x, cls):
    out = []
    def walk(x):
        if isinstance(x, cls):
            out.append(x)
        if isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        for k in ("_items", ):
            for y in x.__dict__.get(k, []) if hasattr(x, "__dict__") else []:
                walk(y)
        if isinstance(x, Qt.QWidget):
            if x._layout is not None:
                walk(x._layout)
            if x.__dict__.get("_central") is not None:
                walk(x._central)
    walk(x)
    return out


def cellvalue(a, cell):
    e = edits(cell)
    try:
        return [float(x.text()) if a.isf() else int(x.text()) for x in e]
    except ValueError:
        return None


class Event:
    def __init__(self, k): self.k = k
    def key(self): return self.k


class Editor:
    def __init__(self, h, r):
        import partedit
        self.h, self.r, self.pe = h, r, partedit
        self.w = partedit.PartEdit()
        self.d = self.w.data
        self.table = self.w.centralWidget().widget(0)
        self.log = []
        self.seen = {"dataReset": 0, "particleAdded": 0, "attributeAdded": 0, "fixedAttributeAdded": 0, "dirtied": []}
        for s in ("dataReset", "particleAdded", "attributeAdded", "fixedAttributeAdded"):
            getattr(self.d, s).connect(lambda *a, s=s: self.seen.__setitem__(s, self.seen[s] + 1))
        self.stale = set()         # cells whose value was set behind the widgets' back
        self.d.dataReset.connect(self.stale.clear)
        self.first = {}            # what typed-over fields showed
        self.d.dataReset.connect(self.first.clear)
        self.d.dirtied.connect(lambda b: self.seen["dirtied"].append(b))
        self.t, self.base, self.dirty = Table(), Table(), False

    def where(self):
        return "after %s; %s" % (" ".join(self.log[-12:]), self.t.describe())

    def fresh(self, t):
        self.t, self.base = t, clonetable(t)

    def verify(self, what):
        h = self.h
        d = diff(partio, self.d.data, self.t)
        h.check(d is None, what, lambda: "%s, %s" % (d, self.where()))
        # the model answers like its data
        h.check(self.d.numParticles() == self.t.n and self.d.numAttributes() == len(self.t.attrs) and self.d.numFixedAttributes() == len(self.t.fixed), what + ".facade", lambda: "the model counts %d particles, %d attributes, %d fixed, %s" % (self.d.numParticles(), self.d.numAttributes(), self.d.numFixedAttributes(), self.where()))
        for i, a in enumerate(self.t.attrs):
            info = self.d.attributeInfo(a.name)
            if self.t.n:
                k = self.r.randrange(self.t.n)
                h.check(same(a, self.d.get(info, k), self.t.vals[k][i]), what + ".facade", lambda: "the model gives %r for '%s' of particle %d, %s" % (self.d.get(info, k), a.name, k, self.where()))
        h.check(bool(self.d.dirty) == self.dirty, "dirty", lambda: "dirty is %s instead of %s, %s" % (self.d.dirty, self.dirty, self.where()))
        h.check(all(x != y for x, y in zip(self.seen["dirtied"], self.seen["dirtied"][1:])), "dirtied", lambda: "dirtied emitted %s, %s" % (self.seen["dirtied"], self.where()))
        if self.seen["dirtied"]:
            h.check(bool(self.seen["dirtied"][-1]) == self.dirty, "dirtied", lambda: "dirtied said %s last, %s" % (self.seen["dirtied"][-1], self.where()))
        h.count("states")
        self.views()

    def views(self):
        h, t, T = self.h, self.t, self.table
        names = [a.name for a in t.attrs]
        heads = [T.horizontalHeaderItem(c).text() if T.horizontalHeaderItem(c) else None for c in range(T.columnCount())]
        if not h.check(T.rowCount() == t.n and sorted(map(str, heads)) == sorted(names), "table", lambda: "the table has %d rows and columns %s, %s" % (T.rowCount(), heads, self.where())):
            return
        for c, n in enumerate(heads):
            a = t.attrs[names.index(n)]
            for k in range(t.n):
                if (n, k) in self.stale:
                    continue
                v = cellvalue(a, T.cellWidget(k, c)) if T.cellWidget(k, c) is not None else None
                h.check(v is not None and same(a, [f32(x) for x in v] if a.isf() else v, t.vals[k][names.index(n)]), "table.cell", lambda: "the cell of '%s' of particle %d shows %s instead of %s, %s" % (n, k, v, t.vals[k][names.index(n)], self.where()))
        h.count("cells_seen", t.n * len(heads))
        fixed = {a.name: i for i, a in enumerate(t.fixed)}
        # the widgets on the right: fixed attributes, strings of those, strings of the others
        right = self.w.centralWidget().widget(1)
        panes = {}
        for x in right._layout._items:
            titles = [l.text() for l in find(x, W.QLabel)]
            tables = find(x, W.QTableWidget)
            if tables:
                panes["strings" if any("String" in l and "Fixed" not in l for l in titles) and not any("Fixed" in l for l in titles) else "fstrings" if any("String" in l for l in titles if "Fixed" in l) else "fixed"] = tables[0]
        if h.check(sorted(panes) == ["fixed", "fstrings", "strings"], "panes", lambda: "views besides the table: %s" % sorted(panes)):
            x = panes["fixed"]
            if t.fixed:
                rows = [x.verticalHeaderItem(k).text() if x.verticalHeaderItem(k) else None for k in range(x.rowCount())]
                if h.check(sorted(map(str, rows)) == sorted(fixed), "fixed", lambda: "fixed attributes %s are shown, %s" % (rows, self.where())):
                    for k, n in enumerate(rows):
                        a = t.fixed[fixed[n]]
                        if n in self.stale:
                            continue
                        v = cellvalue(a, x.cellWidget(k, 0)) if x.cellWidget(k, 0) is not None else None
                        h.check(v is not None and same(a, [f32(y) for y in v] if a.isf() else v, t.fvals[fixed[n]]), "fixed.cell", lambda: "fixed '%s' is shown as %s instead of %s, %s" % (n, v, t.fvals[fixed[n]], self.where()))
                self.fixedtable = (x, rows)
            else:
                h.check(not x.isVisible(), "fixed", lambda: "fixed attributes are shown although there are none, %s" % self.where())
        for pane in ("fstrings", "strings"):
            if pane not in panes:
                continue
            x = panes[pane]
            want = [(a.name, a.strs) for a in (t.fixed if pane == "fstrings" else t.attrs) if a.type == STR]
            if not want:
                h.check(not x.isVisible(), "strings", lambda: "strings are shown although there are none, %s" % self.where())
                continue
            got = []
            for k in range(x.rowCount()):
                inner = find(x.cellWidget(k, 0), W.QTableWidget) if x.cellWidget(k, 0) is not None else []
                got.append((x.verticalHeaderItem(k).text() if x.verticalHeaderItem(k) else None, [inner[0].item(i, 0).text() if inner[0].item(i, 0) else None for i in range(inner[0].rowCount())] if inner else None))
            h.check(x.isVisible() and sorted(map(str, got)) == sorted(map(str, want)), "strings", lambda: "strings shown: %s, %s" % (got, self.where()))

    # --- operations -------------------------------------------------------------------------------------------------------
    def edit(self):
        r, t = self.r, self.t
        if not t.attrs or not t.n:
            return
        i, k = r.randrange(len(t.attrs)), r.randrange(t.n)
        if self.first and r.random() < .4:
            n, k, _ = r.choice(list(self.first))
            i = [a.name for a in t.attrs].index(n)
        a = t.attrs[i]
        v = plainvalue(r, a)
        if a.name == "id":
            return
        if r.random() < .2 or (a.name, k) in self.stale:
            self.log.append("set(%s,%d)" % (a.name, k))
            self.stale.add((a.name, k))
            self.d.set(self.d.attributeInfo(a.name), k, tuple(v))
        else:
            c = [c for c in range(self.table.columnCount()) if self.table.horizontalHeaderItem(c).text() == a.name][0]
            e = edits(self.table.cellWidget(k, c))
            if not self.h.check(len(e) == a.count, "cell", lambda: "the cell of '%s' has %d fields, %s" % (a.name, len(e), self.where())) or not e:
                return
            j = r.randrange(len(e))
            old = list(t.vals[k][i])
            if r.random() < .15:
                self.log.append("leave(%s,%d)" % (a.name, k))     # the field is left without a change
                e[j].editingFinished.emit()
                return
            back = self.first.get((a.name, k, j))
            if back is not None and r.random() < .5:
                v[j] = back                         # what the cell showed first
            self.first.setdefault((a.name, k, j), old[j])
            self.log.append("type(%s[%d],%d)" % (a.name, j, k))
            if v[j] == old[j]:
                return
            e[j].setText(self.spell(a, v[j]))
            e[j].editingFinished.emit()
            v = old[:j] + [v[j]] + old[j + 1:]
            self.h.count("typed")
        t.vals[k][i] = v
        self.dirty = True

    def spell(self, a, x):
        if not a.isf():
            return str(x)
        return self.r.choice([repr(x), repr(x), "%.9g" % x, "%.12e" % x])

    def editFixed(self):
        r, t = self.r, self.t
        if not t.fixed:
            return
        i = r.randrange(len(t.fixed))
        a = t.fixed[i]
        v = plainvalue(r, a)
        if r.random() < .2 or a.name in self.stale:
            self.log.append("setFixed(%s)" % a.name)
            self.stale.add(a.name)
            self.d.setFixed(self.d.fixedAttributeInfo(a.name), tuple(v))
        else:
            x, rows = self.fixedtable
            e = edits(x.cellWidget(rows.index(a.name), 0))
            if not e or len(e) != a.count:
                return
            j = r.randrange(len(e))
            if v[j] == t.fvals[i][j]:
                return
            self.log.append("typeFixed(%s[%d])" % (a.name, j))
            e[j].setText(self.spell(a, v[j]))
            e[j].editingFinished.emit()
            v = t.fvals[i][:j] + [v[j]] + t.fvals[i][j + 1:]
        t.fvals[i] = v
        self.dirty = True

    def add(self):
        t = self.t
        self.log.append("addParticle")
        n = self.seen["particleAdded"]
        self.w.addParticleSlot() if self.r.random() < .5 else self.d.addParticle()
        self.h.check(self.seen["particleAdded"] == n + 1, "notified", lambda: "no view was told of the new particle, %s" % self.where())
        row = [list(v) for v in t.vals[-1]] if t.n else [a.zero() for a in t.attrs]
        for i, a in enumerate(t.attrs):
            if a.name == "id":
                old = [x[i][0] for x in t.vals]
                row[i] = [max(old) + 1] if old else list(self.d.get(self.d.attributeInfo("id"), 0))   # the first id is the editor's choice
        t.vals.append(row)
        t.n += 1
        self.dirty = True

    def addAttribute(self):
        r, t = self.r, self.t
        fixed = r.random() < .35
        lst = t.fixed if fixed else t.attrs
        if len(lst) > 7:
            return
        ty = r.choice([VECTOR, FLOAT, INT, STR])
        a = Attr(rname(r, {x.name for x in lst} | {"id"}), ty, 3 if ty == VECTOR else r.choice([1, 1, 2, 4, 9, 16]))
        v = plainvalue(r, a)
        n = self.seen["fixedAttributeAdded" if fixed else "attributeAdded"]
        if r.random() < .5:
            self.log.append("addAttribute(%s,%s,%d,%s)" % (a.name, TYPES[ty], a.count, fixed))
            self.d.addAttribute(a.name, a.type, a.count, fixed, v[0] if a.count == 1 and r.random() < .5 else tuple(v))
        else:
            k = r.randint(1, a.count)               # the last value typed stands for the remaining ones
            v = v[:k] + [v[k - 1]] * (a.count - k)
            accept = r.random() < .85
            self.log.append("dialog(%s,%s,%d,%s,%s)" % (a.name, TYPES[ty], a.count, fixed, accept))
            text = " ".join(self.spell(a, x) for x in v[:k])
            def answer(dialog):
                form = find(dialog, Qt.QFormLayout)[0]
                f = dict((l.rstrip(":"), w) for l, w in form._items)
                c = f["Type"]
                c.setCurrentIndex([c.itemText(i) for i in range(c.count())].index(TYPES[ty]))
                f["Name"].setText(a.name)
                f["Count"].setText(str(a.count))
                f["Fixed"].setChecked(fixed)
                f["Default Value"].setText(text)
                return accept
            Qt.QDialog.answer = answer
            try:
                self.w.addAttributeSlot()
            finally:
                Qt.QDialog.answer = None
            if not accept:
                return
            self.h.count("dialogs")
        self.h.check(self.seen["fixedAttributeAdded" if fixed else "attributeAdded"] == n + 1, "notified", lambda: "no view was told of the new attribute, %s" % self.where())
        lst.append(a)
        if fixed:
            t.fvals.append(list(v))
        else:
            for row in t.vals:
                row.append(list(v))
        self.dirty = True

    def removal(self, particles, names):
        t = self.t
        if particles:
            t.vals = [row for k, row in enumerate(t.vals) if k not in particles]
            t.n = len(t.vals)
        if names:
            keep = [i for i, a in enumerate(t.attrs) if a.name not in names]
            t.attrs = [t.attrs[i] for i in keep]
            t.vals = [[row[i] for i in keep] for row in t.vals]
        self.dirty = True
        self.h.count("removals")

    def remove(self):
        r, t = self.r, self.t
        ps = sorted(r.sample(range(t.n), r.randint(0, min(t.n, 4) if r.random() < .85 else t.n))) if t.n else []
        ns = r.sample([a.name for a in t.attrs], r.choice([0, 1, 1, 2, 3][:len(t.attrs) + 1])) if t.attrs else []
        r.shuffle(ps)
        n = self.seen["dataReset"]
        if r.random() < .5:
            c = [c for c in range(self.table.columnCount()) if self.table.horizontalHeaderItem(c).text() in ns]
            self.table._selection = (ps, c)
            self.log.append("delete(%s,%s)" % (ps, ns))
            self.table.keyPressEvent(Event(r.choice([Qt.Qt.Key_Delete, Qt.Qt.Key_Backspace])))
            self.table._selection = ([], [])
            if ps or ns:
                self.removal(ps, ns)
        elif r.random() < .5:
            self.log.append("removeParticles(%s)" % ps)
            self.d.removeParticles(ps)
            self.removal(ps, [])
        else:
            ns = ns + (["no such attribute"] if r.random() < .1 else [])
            self.log.append("removeAttributes(%s)" % ns)
            self.d.removeAttributes(ns)
            self.removal([], ns)
        if ps or ns:
            self.h.check(self.seen["dataReset"] > n or not (ps or ns), "notified", lambda: "no view was told of the removal, %s" % self.where())

    def removeFixed(self):
        r, t = self.r, self.t
        if not t.fixed:
            return
        ns = r.sample([a.name for a in t.fixed], r.randint(1, len(t.fixed)))
        self.log.append("removeFixedAttributes(%s)" % ns)
        self.d.removeFixedAttributes(ns)
        keep = [i for i, a in enumerate(t.fixed) if a.name not in ns]
        t.fixed, t.fvals = [t.fixed[i] for i in keep], [t.fvals[i] for i in keep]
        self.dirty = True
        self.h.count("removals")

    def path(self, n):
        f = self.h.tmp + "/" + n + self.r.choice([".bgeo", ".bgeo", ".bhclassic"])
        if os.path.exists(f):
            os.unlink(f)
        return f

    def storable(self):
        return any((a.name, a.type, a.count) == ("position", VECTOR, 3) for a in self.t.attrs)

    def save(self):
        f = self.path("saved")
        ref = self.h.tmp + "/ref" + os.path.splitext(f)[1]
        Qt.QFileDialog.chosen = self.r.choice([(f, "All files(*)"), f])
        self.log.append("save")
        if self.r.random() < .1:
            Qt.QFileDialog.chosen = ("", "")        # cancelled
            self.w.saveSlot()
            self.h.check(not os.path.exists(f), "cancel", "cancelling the dialog wrote a file")
            return
        if not self.storable():
            return
        self.w.saveSlot()
        self.dirty = False
        partio.write(ref, build(partio, self.t), False, False)
        if self.h.check(os.path.exists(f), "save", lambda: "nothing was saved, %s" % self.where()):
            self.h.check(open(f, "rb").read() == open(ref, "rb").read(), "save", lambda: "the saved file is not the set, %s" % self.where())
        self.h.check(self.d.filename == f, "filename", lambda: "after saving as %r the name of the document is %r" % (f, self.d.filename))
        self.base = clonetable(self.t)
        self.h.count("saves")

    def delta(self):
        h, r, t = self.h, self.r, self.t
        self.log.append("delta")
        changed = schema(t) != schema(self.base)
        old = {rowkey(self.base, v) for v in self.base.vals}
        want = {rowkey(t, v) for v in t.vals}
        want = want if changed else want - old
        d = self.d.createDelta()
        got = snapshot(partio, d)
        keys = [rowkey(got, v) for v in got.vals]
        h.check(set(keys) <= want, "delta.extra", lambda: "the delta holds a particle that did not change (%d of %d, baseline %d), %s" % (len(set(keys) - want), len(keys), self.base.n, self.where()))
        h.check(want <= set(keys), "delta.missing", lambda: "%d of %d changed particles are missing from the delta, %s" % (len(want - set(keys)), len(want), self.where()))
        if want:
            h.check(schema(got) == schema(t), "delta.schema", lambda: "the delta has %s, %s" % (got.describe(), self.where()))
            for a in got.attrs:
                if a.type == STR:
                    h.check(a.strs == [x for x in t.attrs if x.name == a.name][0].strs, "delta.strings", lambda: "the delta's strings of '%s' are %s, %s" % (a.name, a.strs, self.where()))
        h.count("deltas")
        h.count("delta_particles", len(keys))
        # what a delta is for: merged into the baseline it gives the edited set
        ids = [a.name for a in t.attrs].index("id") if "id" in [a.name for a in t.attrs] else None
        if ids is not None and not changed and got.n:
            cur = {v[ids][0]: rowkey(t, v) for v in t.vals}
            if len(cur) == t.n and len({v[[a.name for a in self.base.attrs].index("id")][0] for v in self.base.vals}) == self.base.n:
                b = build(partio, self.base)
                partio.merge(b, d, "id")
                m = snapshot(partio, b)
                k = [a.name for a in m.attrs].index("id")
                have = {v[k][0]: rowkey(m, v) for v in m.vals}
                bad = [i for i in cur if have.get(i) != cur[i]]
                h.check(not bad, "delta.merge", lambda: "the baseline merged with the delta lacks the edits of ids %s, %s" % (bad[:5], self.where()))
                h.count("delta_merges")
        if self.storable() and r.random() < .3:
            f = self.path("delta")
            Qt.QFileDialog.chosen = (f, "")
            name, dirty = self.d.filename, self.d.dirty
            self.w.saveDeltaSlot()
            h.check(self.d.filename == name and self.d.dirty == dirty, "delta.state", lambda: "saving a delta changed the state of the document, %s" % self.where())
            if not got.n and os.path.exists(f):
                e = partio.read(f, False)
                h.check(e is None or e.numParticles() == 0, "delta.file", lambda: "nothing changed, but the saved delta holds %d particles, %s" % (e.numParticles(), self.where()))
                h.count("empty_deltas")
            if got.n and h.check(os.path.exists(f), "delta.file", lambda: "no delta was saved, %s" % self.where()):
                q = snapshot(partio, partio.read(f, False))
                h.check({rowkey(q, v) for v in q.vals} == set(keys) and q.n == len(keys), "delta.file", lambda: "the saved delta holds %d particles instead of %d, %s" % (q.n, len(keys), self.where()))
                h.check(all(a.strs == [x for x in t.attrs if x.name == a.name][0].strs for a in q.attrs if a.type == STR), "delta.strings", lambda: "the strings of the saved delta differ, %s" % self.where())
                h.count("delta_files")

    def open(self):
        r = self.r
        k = r.random()
        n = self.seen["dataReset"]
        if k < .15:
            self.log.append("open missing")
            with contextlib.redirect_stderr(pyio.StringIO()) as e:
                self.d.read(self.h.tmp + "/none.bgeo")
            self.h.check(e.getvalue(), "missing", "a missing file was opened without a word")
            return
        t = table(r, r.random() < .6)
        p = build(partio, t, r)
        if k < .5:
            self.log.append("setData")
            self.w.setData(p)
        else:
            if not any((a.name, a.type, a.count) == ("position", VECTOR, 3) for a in t.attrs):
                return
            f = self.path("open")
            partio.write(f, p, r.random() < .3, False)
            self.log.append("open")
            q = partio.read(f, False)
            t = snapshot(partio, q)         # what the format made of it is not the editor's business
            for x in t.attrs + t.fixed:
                del x.h
            if r.random() < .5:
                self.w.open(f)
            else:
                Qt.QFileDialog.chosen = r.choice([(f, ""), f])
                self.w.openSlot()
            self.dirty = False
            self.h.check(self.d.filename == f, "filename", lambda: "the name of the document is %r" % self.d.filename)
        self.h.check(self.seen["dataReset"] > n, "notified", lambda: "no view was told of the new data, %s" % self.where())
        self.fresh(t)
        self.h.count("opens")


def case(h, r):
    e = Editor(h, r)
    e.views()
    ops = [e.edit] * 5 + [e.editFixed] * 2 + [e.add] * 2 + [e.addAttribute] * 2 + [e.remove] * 2 + [e.removeFixed, e.save, e.delta, e.delta]
    if r.random() < .9:
        e.open()
        e.verify("open")
    h.sample(e.t.describe())
    for _ in range(r.randint(2, 25)):
        op = r.choice(ops) if r.random() < .96 else e.open
        with contextlib.redirect_stdout(pyio.StringIO()):
            op()
        e.verify(op.__name__)
        if h.nviol:
            return
    e.delta()
    h.distinct(e.t.key(), tuple(e.log))


# --- P34 ----------------------------------------------------------------------------------------------------------------------
class Index(Qt.QModelIndex):
    pass


def sheet(h, r):
    import partinspect
    t = gen(r, maxn=r.choice([3, 30]), position=r.random() < .5, maxcount=r.choice([4, 16]))
    for nm in r.sample(["id", "ids", "h_pil_id"], r.choice([0, 1, 2, 3])):
        if nm not in [a.name for a in t.attrs]:
            t.attrs.insert(r.randint(0, len(t.attrs)), Attr(nm, INT, r.choice([1, 1, 2])))
            k = [a.name for a in t.attrs].index(nm)
            for row in t.vals:
                row.insert(k, rvalue(r, t.attrs[k]))
    p = build(partio, t, r)
    ctx = t.describe()
    attrsOnly = r.random() < .4
    s = partinspect.Spreadsheet(attrsOnly)
    if any((a.name, a.type, a.count) == ("position", VECTOR, 3) for a in t.attrs) and r.random() < .5:
        f = h.tmp + "/sheet.bgeo"
        partio.write(f, p, False, False)
        s.setFile(f)
        t = snapshot(partio, partio.read(f, False))
        h.count("files")
    else:
        s.setData(p)
    view, field = find(s, W.QTreeView), find(s, W.QLineEdit)
    if not h.check(len(view) == 1 and len(field) == 1, "window", "%d trees, %d fields" % (len(view), len(field))):
        return
    proxy, field = view[0].model(), field[0]
    if isinstance(proxy, Qt.QSortFilterProxyModel):
        m = proxy.sourceModel()
    else:
        m, proxy = proxy, None
    nowhere = Qt.QModelIndex()
    role = QtCore.Qt.DisplayRole
    comps = [(i, a, j) for i, a in enumerate(t.attrs) for j in range(a.count)]
    rows, cols = m.rowCount(nowhere), m.columnCount(nowhere)
    h.check(m.rowCount(Index(0, 0)) == 0, "tree", "rows below a row")
    cell = lambda row, col: m.data(m.index(row, col, nowhere), role)
    head = lambda c: m.headerData(c, Qt.Qt.Horizontal, role)
    h.check(m.data(nowhere, role) is None, "invalid", "data at an invalid index")
    if attrsOnly:
        h.check(rows == len(comps), "attrs", lambda: "%d rows for %d components; %s" % (rows, len(comps), ctx))
        want = {}
        for _, a, j in comps:
            k = (a.name, a.type, a.count)
            want[k] = want.get(k, 0) + 1
        heads = [head(c) for c in range(cols)]
        try:
            n, ty, co = heads.index("Attribute"), heads.index("Type"), heads.index("Count")
        except ValueError:
            return h.viol("attrs", "columns %s" % heads)
        TN = {"Vector": VECTOR, "Float": FLOAT, "Integer": INT, "Indexed String": STR}
        got = {}
        for k in range(rows):
            x = (cell(k, n), TN.get(cell(k, ty)), int(cell(k, co)))
            got[x] = got.get(x, 0) + 1
        h.check(got == want, "attrs", lambda: "%s listed; %s" % (got, ctx))
        seen = [cell(k, n) for k in range(rows)]
        h.count("attribute_rows", rows)
    else:
        h.check(rows == t.n and cols == 1 + len(comps), "size", lambda: "%d x %d cells; %s" % (rows, cols, ctx))
        heads = [head(c) for c in range(cols)]
        where = {"%s[%d]" % (a.name, j): (i, a, j) for i, a, j in comps}
        h.check(heads[:1] == ["Index"] and sorted(map(str, heads[1:])) == sorted(where), "heads", lambda: "columns %s; %s" % (heads, ctx))
        for c, n in enumerate(heads):
            if n in where:
                i, a, j = where[n]
                for k in range(rows):
                    v = cell(k, c)
                    h.check(v is not None and norm(a, [f32(float(v)) if a.isf() else int(v)]) == norm(a, [t.vals[k][i][j]]), "cell", lambda: "%s of particle %d shows %r instead of %r; %s" % (n, k, v, t.vals[k][i][j], ctx))
            elif c == 0:
                for k in range(rows):
                    h.check(str(cell(k, c)) == str(k), "cell", lambda: "row %d is numbered %r" % (k, cell(k, c)))
        h.count("cells", rows * cols)
        seen = [n.rsplit("[", 1)[0] for n in heads[1:] if n]
    # what names particles comes first
    lead = [n for n in ("id", "ids", "h_pil_id") if n in seen]
    order = list(dict.fromkeys(seen))
    h.check(order[:len(lead)] == lead and order[len(lead):] == sorted(order[len(lead):]), "order", lambda: "attributes in the order %s; %s" % (order, ctx))
    for out in (-1, rows, rows + 5):
        h.check(m.data(Index(out, 0), role) is None, "outside", lambda: "data in row %d of %d" % (out, rows))
    # the filter
    if proxy is not None:
        words = [r.choice([a.name for a in t.attrs] or ["x"]) for _ in range(r.randint(1, 3))]
        words = [w[i:i + r.randint(1, 6)] for w in words for i in [r.randrange(len(w))]]
        words = [w for w in words if re.fullmatch(r"[A-Za-z0-9_]+", w)]
        text = r.choice([" ", ",", "  "]).join(words + (["nosuchname"] if r.random() < .2 else []))
        if r.random() < .2:
            text = ""
        n = proxy.invalidated
        field.setText(text)
        field.textChanged.emit(text)
        h.check(proxy.invalidated > n, "filter.told", "the filter was not told of the new text")
        parts = [x for x in re.split(r"\W+", text) if x]
        if not text or parts:
            if attrsOnly:
                for k in range(rows):
                    keep = not text or any(x in seen[k] for x in parts)
                    got = bool(proxy.filterAcceptsRow(k, nowhere))
                    h.check(got == keep, "filter", lambda: "filter %r %s row %d ('%s'); %s" % (text, "keeps" if got else "hides", k, seen[k], ctx))
                h.check(all(proxy.filterAcceptsColumn(c, nowhere) for c in range(cols)), "filter", "a column of the attribute list is hidden")
            else:
                for c in range(cols):
                    keep = c == 0 or not text or any(x in heads[c] for x in parts)
                    got = bool(proxy.filterAcceptsColumn(c, nowhere))
                    h.check(got == keep, "filter", lambda: "filter %r %s column '%s'; %s" % (text, "keeps" if got else "hides", heads[c], ctx))
                h.check(all(proxy.filterAcceptsRow(k, nowhere) for k in range(rows)), "filter", "a particle is hidden")
            h.count("filters")
    h.distinct(t.key(), attrsOnly)
    h.sample(ctx)


if __name__ == "__main__":
    import re
    main(case if "P33" in sys.argv else sheet)
