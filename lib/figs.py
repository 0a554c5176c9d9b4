"""Records what the plotting scripts draw: the state of the figure whenever one is saved or shown (for T05)."""
import os, pickle
os.environ['MPLBACKEND'] = 'Agg'
import matplotlib
matplotlib.use('Agg')
from matplotlib import figure, pyplot
import matplotlib.pylab
import numpy as np


def state(fig):
    """Everything drawn in a figure, axes by axes."""
    out = []
    for ax in fig.axes:
        if ax.get_label() == '<colorbar>' or hasattr(ax, '_colorbar'):
            continue
        out.append(dict(title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), xlim=tuple(ax.get_xlim()), ylim=tuple(ax.get_ylim()),
                        images=[dict(data=np.ma.array(i.get_array()), extent=tuple(float(x) for x in i.get_extent()), clim=i.get_clim(), cmap=i.get_cmap().name, origin=i.origin) for i in ax.images],
                        lines=[dict(x=np.ma.array(l.get_xdata(orig=True)), y=np.ma.array(l.get_ydata(orig=True)), label=l.get_label()) for l in ax.lines],
                        texts=[(float(t.get_position()[0]), float(t.get_position()[1]), t.get_text()) for t in ax.texts],
                        legend=ax.get_legend() is not None))
    return out


def record(what):
    p = os.environ.get('AIPY_FIGS')
    if p:
        with open(p, 'ab') as f:
            pickle.dump((what, state(pyplot.gcf())), f)


def install():
    real = figure.Figure.savefig

    def savefig(self, fname, *a, **kw):
        if 'AIPY_FIGS' not in os.environ:
            return real(self, fname, *a, **kw)
        record(str(fname))
        with open(fname, 'wb') as f:
            f.write(b'figure')

    def show(*a, **kw):
        record('show')
    figure.Figure.savefig = savefig
    pyplot.show = matplotlib.pylab.show = show


def read(p):
    out = []
    if os.path.exists(p):
        with open(p, 'rb') as f:
            while True:
                try:
                    out.append(pickle.load(f))
                except EOFError:
                    return out
    return out
