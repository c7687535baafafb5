import json, os, atexit
_figs, _cur, _saved = {}, [None], {}


def _flat(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple, range)):
        return [z for y in x for z in _flat(y)]
    if hasattr(x, "item"):
        x = x.item()
    return [x]


class Any:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Any()


class Axes(Any):
    def __init__(self):
        self.rec = {"text": [], "bar": [], "lines": [], "title": []}

    def text(self, x, y, s, *a, **k):
        self.rec["text"].append(str(s))
        return Any()

    annotate = lambda self, s, *a, **k: self.rec["text"].append(str(s)) or Any()

    def bar(self, x, height, *a, **k):
        self.rec["bar"] += _flat(height)
        return Any()

    def hlines(self, y, a, b, *r, **k):
        self.rec["lines"] += list(zip(_flat(a), _flat(b)))
        return Any()

    def vlines(self, x, a, b, *r, **k):
        self.rec["lines"] += list(zip(_flat(a), _flat(b)))
        return Any()

    def get_ylim(self):
        return (0.0, 1.0)

    get_xlim = get_ylim

    def set_title(self, t, *a, **k):
        self.rec["title"].append(str(t))

    def set_xticks(self, t, labels=None, *a, **k):
        if labels is not None:
            self.rec["text"] += [str(x) for x in labels]

    set_yticks = set_xticks

    def set_xticklabels(self, labels, *a, **k):
        self.rec["text"] += [str(x) for x in labels]

    set_yticklabels = set_xticklabels


class Figure(Any):
    def __init__(self):
        self.axes, self.title, self.ticks = [], "", []

    def subplots(self, n=1, m=1, **k):
        self.axes = [Axes() for _ in range(n * m)]
        return self.axes[0] if n * m == 1 else self.axes

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    def suptitle(self, t, *a, **k):
        self.title = str(t)

    def savefig(self, path, *a, **k):
        open(path, "w").close()
        _saved[os.path.basename(str(path))] = {"title": self.title, "ticks": self.ticks, "axes": [x.rec for x in self.axes]}


def figure(num=None, *a, **k):
    _cur[0] = _figs.setdefault(num, Figure()) if num is not None else Figure()
    return _cur[0]


def subplots(n=1, m=1, **k):
    f = _cur[0] = Figure()
    return f, f.subplots(n, m)


def gcf():
    return _cur[0]


def clf():
    _cur[0].axes, _cur[0].title, _cur[0].ticks = [], "", []


def close(*a):
    pass


def xticks(pos=None, labels=None, *a, **k):
    _cur[0].ticks += [str(x) for x in labels or []]


yticks = xticks


def savefig(path, *a, **k):
    _cur[0].savefig(path)


def suptitle(t, *a, **k):
    _cur[0].suptitle(t)


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return lambda *a, **k: Any()


@atexit.register
def _end():
    with open(os.environ["MPL_RECORD"], "w") as f:
        json.dump(_saved, f)
