"""Recording stand-in for matplotlib.pyplot: figures, axes, curves, markers, files."""
import os
import re
import shutil
import tempfile

NUM = re.compile(r'Wx[k-t]+xW|[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?(?:[-+]\d+\.?\d*(?:[eE][-+]?\d+)?j)?')


class Any(object):
    """accepts everything"""

    def __init__(self, rec=None):
        self.__dict__['_rec'] = rec

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any(self._rec)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        return Any(self._rec)

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return Any(self._rec)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Line(Any):
    def __init__(self, rec, x, y, label, fmt):
        self.__dict__.update(_rec=rec, x=x, y=y, label=label, fmt=fmt)

    def get_label(self):
        return self.label


class Axes(Any):
    def __init__(self, rec, fig):
        self.__dict__.update(_rec=rec, fig=fig, lines=[], vlines=[], hlines=[], notes=[], maps=[], legends=[], xl='', yl='')
        fig.axes.append(self)

    def get_figure(self):
        return self.fig

    @property
    def figure(self):
        return self.fig

    def twinx(self):
        return Axes(self._rec, self.fig)

    def plot(self, *a, **k):
        out = []
        a = list(a)
        while a:
            x = a.pop(0)
            if a and not isinstance(a[0], str):
                y = a.pop(0)
            else:
                x, y = None, x
            f = a.pop(0) if a and isinstance(a[0], str) else ''
            out.append(Line(self._rec, self._rec.seq(x) if x is not None else None, self._rec.seq(y), k.get('label', ''), f))
        self.lines.extend(out)
        return out
    semilogy = semilogx = loglog = plot

    def scatter(self, x, y, *a, **k):
        self.plot(x, y, **k)
        return Any(self._rec)

    def axvline(self, x=0, *a, **k):
        self.vlines.append(x)
        return Any(self._rec)

    def axhline(self, y=0, *a, **k):
        self.hlines.append(y)
        return Any(self._rec)

    def annotate(self, text, *a, **k):
        xy = k.get('xy', a[0] if a else None)
        self.notes.append((text, xy))
        return Any(self._rec)

    def pcolor(self, *a, **k):
        self.maps.append(a)
        return Any(self._rec)
    pcolormesh = contourf = pcolor

    def legend(self, *a, **k):
        self.legends.append(k.get('title'))
        return Any(self._rec)

    def set_xlabel(self, s, *a, **k):
        self.__dict__['xl'] = s

    def set_ylabel(self, s, *a, **k):
        self.__dict__['yl'] = s

    def get_xlabel(self):
        return self.xl

    def get_ylabel(self):
        return self.yl

    def get_yticklabels(self):
        return []
    get_xticklabels = get_yticklabels

    def set(self, **k):
        self.__dict__['xl'] = k.get('xlabel', self.xl)
        self.__dict__['yl'] = k.get('ylabel', self.yl)


class Fig(Any):
    def __init__(self, rec):
        self.__dict__.update(_rec=rec, axes=[], saved=[], closed=False)
        rec.figs.append(self)

    def savefig(self, name, *a, **k):
        # what the file shows is what has been drawn until now
        self.saved.append((name, [(x, len(x.lines)) for x in self.axes]))

    def add_subplot(self, *a, **k):
        return Axes(self._rec, self)

    def gca(self):
        return self.axes[-1] if self.axes else Axes(self._rec, self)

    def subplots(self, *a, **k):
        return self._rec.grid(self, a, k)

    def lines(self):
        return [l for x in self.axes for l in x.lines]


class Plt(Any):
    """pyplot"""

    def __init__(self, c):
        self.__dict__.update(c=c, figs=[], _rec=self)

    def seq(self, x):
        np = self.c.np
        return [x] if np.ndim(x) == 0 else [v for v in list(x)]

    def grid(self, fig, a, k):
        a = list(a) + [1, 1]
        n = k.get('nrows', a[0]) * k.get('ncols', a[1])
        ax = [Axes(self, fig) for _ in range(n)]
        return ax[0] if n == 1 else tuple(ax)

    def subplots(self, *a, **k):
        f = Fig(self)
        return f, self.grid(f, a, k)

    def figure(self, *a, **k):
        return Fig(self)

    def gcf(self):
        return self.figs[-1] if self.figs else Fig(self)

    def gca(self):
        return self.gcf().gca()

    def savefig(self, *a, **k):
        return self.gcf().savefig(*a, **k)

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def xlabel(self, s, *a, **k):
        self.gca().set_xlabel(s)

    def ylabel(self, s, *a, **k):
        self.gca().set_ylabel(s)

    def close(self, f=None):
        if isinstance(f, Fig):
            f.__dict__['closed'] = True


def is_ax(x):
    return isinstance(x, Axes)


# ------------------------------------------------------------------ comparisons

def equal(c, xs, ys):
    """formula: the sequences agree"""
    if len(xs) != len(ys):
        return False
    r = []
    for a, b in zip(xs, ys):
        d = a - b
        for q in (d.real, d.imag) if not isinstance(d, (int, float)) else (d,):
            r.append(c.and_(c.le(q, 1e-6), c.le(-q, 1e-6)))
    return c.and_(*r) if r else True


def same(c, label, xs, ys):
    c.check(label + ': number of points', len(xs) == len(ys))
    if len(xs) == len(ys):
        for a, b in zip(xs, ys):
            c.check_eq(label, a, b)


def shown(c, label, lines, xs, ys):
    """one of the drawn curves consists of exactly these points"""
    xs, ys = list(xs), list(ys)
    cand = [l for l in lines if l.x is not None and len(l.x) == len(xs) and len(l.y) == len(ys)]
    if len(cand) == 1:
        same(c, label, list(cand[0].x) + list(cand[0].y), xs + ys)
    else:
        c.check(label, c.or_(*[equal(c, list(l.x) + list(l.y), xs + ys) for l in cand]) if cand else False)


def labelled(c, label, lines, start, xs, ys):
    """the curve with this legend text consists of exactly these points"""
    hit = [l for l in lines if isinstance(l.label, str) and l.label.startswith(start)]
    c.check('%s: legend entry %r' % (label, start), len(hit) == 1)
    if len(hit) == 1:
        same(c, label, list(hit[0].x) + list(hit[0].y), list(xs) + list(ys))
    return hit[0].label if hit else ''


def numbers(c, text):
    return [c.text_number(t) for t in NUM.findall(text)]


def printed(c, label, text, value, digits, k=0):
    """the k-th number in the text is the value to this many decimals"""
    n = numbers(c, text)
    c.check(label + ': number in the text', len(n) > (k if k >= 0 else -k - 1))
    if len(n) > (k if k >= 0 else -k - 1):
        near(c, label, n[k], value, 0.5 * 10. ** -digits)


def near(c, label, a, b, h):
    d = a - b
    for q in ((d.real, d.imag) if not isinstance(d, (int, float)) else (d,)):
        c.check(label, c.and_(c.le(q, h), c.le(-q, h)))


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='qmixfig')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def lines_of(path):
    with open(path) as f:
        return f.read().splitlines()


def saved(plt, name):
    """(figure, curves) of the figure saved under this file name"""
    for f in plt.figs:
        for n, x in f.saved:
            if os.path.basename(str(n)) == name:
                return f, [l for a, k in x for l in a.lines[:k]]
    return None, []
