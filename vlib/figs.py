"""What a figure shows: positions and values of its artists."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.collections import PathCollection, QuadMesh  # noqa: E402
from matplotlib.dates import date2num  # noqa: E402


def day(t):
    """Position of a time on an axis."""
    return date2num(getattr(t, 'datetime', t))


class Field:
    """Colours of an image or a mesh by position."""

    def __init__(self, artist):
        self.artist = artist
        a = artist.get_array()
        self.values = np.ma.filled(np.ma.asarray(a).astype(float), np.nan)
        if isinstance(artist, QuadMesh):
            xy = np.asarray(artist.get_coordinates(), float)
            self.x, self.y = xy[0, :, 0], xy[:, 0, 1]
            shape = (len(self.y), len(self.x))
            # colours of the corners or of the cells
            self.nodes = self.values.size == shape[0]*shape[1]
            if not self.nodes:
                shape = (shape[0]-1, shape[1]-1)
            self.values = self.values.reshape(shape)
        else:
            self.nodes = False
            m, n = self.values.shape
            left, right, bottom, top = artist.get_extent()
            self.x = np.linspace(left, right, n+1)
            self.y = np.linspace(bottom, top, m+1)
            if artist.origin == 'upper':
                self.values = self.values[::-1]

    @staticmethod
    def cell(edges, p):
        e = np.asarray(edges)
        if e[-1] < e[0]:
            i = Field.cell(e[::-1], p)
            return None if i is None else len(e)-2-i
        tol = 1e-9*max(1e-6, abs(e[-1]-e[0]))
        if p < e[0]-tol or p > e[-1]+tol:
            return None
        return int(np.clip(np.searchsorted(e, p, 'right')-1, 0, len(e)-2))

    @staticmethod
    def node(pos, p):
        i = int(np.argmin(np.abs(np.asarray(pos)-p)))
        span = abs(pos[-1]-pos[0]) or 1.
        return i if abs(pos[i]-p) < 1e-7*span else None

    def at(self, x, y):
        """Values at the positions (y, x); None where nothing is drawn."""
        f = self.node if self.nodes else self.cell
        i = [f(self.y, p) for p in np.atleast_1d(y)]
        j = [f(self.x, p) for p in np.atleast_1d(x)]
        if None in i or None in j:
            return None
        return self.values[np.ix_(i, j)]


def fields(ax):
    return [Field(a) for a in list(ax.get_images()) + [
        c for c in ax.collections if isinstance(c, QuadMesh)]]


def lines(ax):
    """(x, y) of all lines in units of the axes."""
    out = []
    for ln in ax.get_lines():
        out.append((np.asarray(ln.get_xdata(orig=False), float),
                    np.asarray(ln.get_ydata(orig=False), float), ln))
    return out


def points(ax):
    """(x, y, colours) of scattered points."""
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            o = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
            a = c.get_array()
            out.append((o[:, 0], o[:, 1], None if a is None else
                        np.ma.filled(np.ma.asarray(a, float), np.nan)))
    return out


def draw(ax):
    """Render the whole figure."""
    fig = ax.figure
    fig.set_dpi(30)
    fig.canvas.draw()


def close():
    plt.close('all')
