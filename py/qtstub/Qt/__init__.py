"""A window system for the graphical tools to talk to where none is installed: widgets that only remember what the monitors
look at (texts, tables, signals); every other class and call is accepted and does nothing."""
import sys, types


class _Any:
    """stands for whatever is not modelled: can be called, combined and asked for attributes"""
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): return _Any()
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()
    def __or__(self, o): return self
    __ror__ = __and__ = __rand__ = __add__ = __radd__ = __or__


class _Meta(type):
    def __getattr__(cls, n):        # enumerations such as QFrame.NoFrame
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _Bound:
    def __init__(self): self.slots = []
    def connect(self, f): self.slots.append(f)
    def disconnect(self, f=None): self.slots = [s for s in self.slots if f is not None and s != f]
    def emit(self, *a):
        for f in list(self.slots):
            f(*a)


class Signal:
    def __init__(self, *types, **k): pass
    def __set_name__(self, owner, name): self.name = "_signal_" + name
    def __get__(self, o, owner=None):
        if o is None:
            return self
        return o.__dict__.setdefault(self.name, _Bound())


class QObject(metaclass=_Meta):
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return _Any()


class QWidget(QObject):
    clicked, editingFinished, textChanged, toggled, currentIndexChanged = Signal(), Signal(), Signal(str), Signal(bool), Signal(int)

    def __init__(self, *a, **k):
        QObject.__init__(self)
        self._text = a[0] if a and isinstance(a[0], str) else ""
        self._style = ""
        self._shown = True
        self._title = None
        self._layout = None

    def text(self): return self._text
    def setText(self, s):
        assert isinstance(s, str)
        self._text = s
    def setStyleSheet(self, s): self._style = s
    def styleSheet(self): return self._style
    def show(self): self._shown = True
    def hide(self): self._shown = False
    def setVisible(self, b): self._shown = bool(b)
    def isVisible(self): return self._shown
    def setWindowTitle(self, s): self._title = s
    def windowTitle(self): return self._title
    def setLayout(self, l): self._layout = l
    def layout(self): return self._layout
    def height(self): return 100
    def width(self): return 100


class _Layout(QObject):
    def __init__(self, *a, **k): self._items = []
    def addWidget(self, w, *a): self._items.append(w)
    def addLayout(self, w, *a): self._items.append(w)
    def removeWidget(self, w): self._items = [x for x in self._items if x is not w]


class QVBoxLayout(_Layout): pass
class QHBoxLayout(_Layout): pass
class QGridLayout(_Layout): pass


class QFormLayout(_Layout):
    def addRow(self, label, w=None): self._items.append((label, w))


class QFrame(QWidget): pass
class QLabel(QWidget): pass
class QLineEdit(QWidget): pass
class QPushButton(QWidget): pass


class QCheckBox(QWidget):
    _on = False
    def setChecked(self, b): self._on = bool(b)
    def isChecked(self): return self._on


class QComboBox(QWidget):
    def __init__(self, *a, **k):
        QWidget.__init__(self)
        self._entries, self._current = [], -1
    def addItem(self, s, *a): self._entries.append(s)
    def addItems(self, l): self._entries.extend(l)
    def itemText(self, i): return self._entries[i]
    def count(self): return len(self._entries)
    def setCurrentIndex(self, i): self._current = i
    def currentIndex(self): return self._current
    def currentText(self): return self._entries[self._current]


class QTableWidgetItem(QObject):
    def __init__(self, text="", *a):
        assert isinstance(text, str)
        self._text = text
    def text(self): return self._text
    def setText(self, s): self._text = s


class QTableWidget(QWidget):
    def __init__(self, *a, **k):
        QWidget.__init__(self)
        self._rows = self._cols = 0
        self._cells, self._entries, self._h, self._v = {}, {}, {}, {}
        self._selection = ([], [])
    def clear(self): self._entries, self._h, self._v = {}, {}, {}
    def setRowCount(self, n):
        self._rows = n
        self._trim()
    def setColumnCount(self, n):
        self._cols = n
        self._trim()
    def _trim(self):
        for d in (self._cells, self._entries):
            for k in [k for k in d if k[0] >= self._rows or k[1] >= self._cols]:
                del d[k]
    def rowCount(self): return self._rows
    def columnCount(self): return self._cols
    def setCellWidget(self, r, c, w):
        if 0 <= r < self._rows and 0 <= c < self._cols:     # as the real one: a cell outside the table is ignored
            self._cells[r, c] = w
    def cellWidget(self, r, c): return self._cells.get((r, c))
    def setItem(self, r, c, i):
        if 0 <= r < self._rows and 0 <= c < self._cols:
            self._entries[r, c] = i
    def item(self, r, c): return self._entries.get((r, c))
    def setHorizontalHeaderItem(self, c, i):
        if 0 <= c < self._cols:
            self._h[c] = i
    def setVerticalHeaderItem(self, r, i):
        if 0 <= r < self._rows:
            self._v[r] = i
    def horizontalHeaderItem(self, c): return self._h.get(c)
    def verticalHeaderItem(self, r): return self._v.get(r)
    def setHorizontalHeaderLabels(self, l): self._h = {i: QTableWidgetItem(s) for i, s in enumerate(l) if i < self._cols}
    def setVerticalHeaderLabels(self, l): self._v = {i: QTableWidgetItem(s) for i, s in enumerate(l) if i < self._rows}
    def selectionModel(self): return _Selection(*self._selection)


class _Pos:
    def __init__(self, r, c): self.r, self.c = r, c
    def row(self): return self.r
    def column(self): return self.c


class _Selection:
    def __init__(self, rows, cols): self.rows, self.cols = rows, cols
    def selectedRows(self, *a): return [_Pos(r, 0) for r in self.rows]
    def selectedColumns(self, *a): return [_Pos(0, c) for c in self.cols]


class QMainWindow(QWidget):
    def __init__(self, *a, **k):
        QWidget.__init__(self)
        self._shortcuts = []
    def addToolBar(self, *a): return QToolBar()
    def setCentralWidget(self, w): self._central = w
    def centralWidget(self): return self._central


class QToolBar(QWidget):
    def addWidget(self, w): pass


class QSplitter(QWidget):
    def __init__(self, *a, **k):
        QWidget.__init__(self)
        self._items = []
    def addWidget(self, w): self._items.append(w)
    def widget(self, i): return self._items[i]
    def count(self): return len(self._items)


class QDialog(QWidget):
    answer = None       # set by the workload: called with the dialog, says whether it is accepted
    def accept(self, *a): pass
    def reject(self, *a): pass
    def exec_(self):
        return int(bool(QDialog.answer(self))) if QDialog.answer else 0
    exec = exec_


class QFileDialog(QDialog):
    chosen = ("", "")
    @staticmethod
    def getOpenFileName(*a, **k): return QFileDialog.chosen
    @staticmethod
    def getSaveFileName(*a, **k): return QFileDialog.chosen


class QModelIndex:
    def __init__(self, r=-1, c=-1): self.r, self.c = r, c
    def isValid(self): return self.r >= 0 and self.c >= 0
    def row(self): return self.r
    def column(self): return self.c
    def parent(self): return QModelIndex()


class QAbstractItemModel(QObject):
    def createIndex(self, r, c, *a): return QModelIndex(r, c)


class QSortFilterProxyModel(QAbstractItemModel):
    def __init__(self, *a):
        self._source, self.invalidated = None, 0
    def setSourceModel(self, m): self._source = m
    def sourceModel(self): return self._source
    def invalidateFilter(self): self.invalidated += 1


class QTreeView(QWidget):
    _model = None
    def setModel(self, m): self._model = m
    def model(self): return self._model


class _Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = type(self)._known.get(n)
        if c is None:
            c = type(self)._known[n] = _Meta(n, (QWidget,), {})
        return c
    _known = {}


_Module._known.update({k: v for k, v in globals().items() if k.startswith("Q") or k == "Signal"})


class Qt(metaclass=_Meta):
    Vertical, Horizontal, DisplayRole, EditRole, DecorationRole, ToolTipRole = 2, 1, 0, 2, 1, 3
    Key_Delete, Key_Backspace = 1, 2
    CTRL, SHIFT = 1 << 26, 1 << 25


_Module._known["Qt"] = Qt
for _n in ("QtCore", "QtGui", "QtWidgets"):
    _m = _Module("Qt." + _n)
    _m.Qt = Qt
    for _k, _v in (("Vertical", 2), ("Horizontal", 1), ("DisplayRole", 0), ("EditRole", 2), ("DecorationRole", 1), ("ToolTipRole", 3)):
        setattr(_m, _k, _v)
    if _n == "QtCore":
        _m.Qt = type("QtNS", (Qt,), {})
    sys.modules["Qt." + _n] = _m
    globals()[_n] = _m
