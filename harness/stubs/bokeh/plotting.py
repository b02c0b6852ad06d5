from _stubmissing import module_getattr as _mg
from bokeh.io import output_file, show, save      # noqa
_missing = _mg('bokeh.plotting')

_XY = ('x', 'y')
GLYPHS = {
    'circle': _XY, 'cross': _XY, 'square': _XY, 'triangle': _XY, 'x': _XY,
    'diamond': _XY, 'inverted_triangle': _XY, 'asterisk': _XY,
    'line': _XY, 'patch': _XY, 'multi_line': ('xs', 'ys'),
    'patches': ('xs', 'ys'),
    'image': ('image', 'x', 'y', 'dw', 'dh'),
    'segment': ('x0', 'y0', 'x1', 'y1'),
    'ray': ('x', 'y', 'length', 'angle'),
    'quad': ('left', 'right', 'top', 'bottom'),
    'rect': ('x', 'y', 'width', 'height'),
}


class _Splat(object):
    """fig.grid, fig.legend: a list of models that passes settings on."""


class Figure(object):
    def __init__(self, *args, **kwargs):
        if args:
            raise TypeError('Figure takes keyword arguments only')
        self.plot_width = kwargs.pop('plot_width', 600)
        self.plot_height = kwargs.pop('plot_height', 600)
        self.kwargs = kwargs
        self.x_range = self.y_range = None
        self.grid, self.xgrid, self.ygrid = _Splat(), _Splat(), _Splat()
        self.legend = _Splat()
        self.glyphs = []

    def __getattr__(self, name):
        if name in GLYPHS:
            params = GLYPHS[name]

            def glyph(*args, **kwargs):
                if len(args) > len(params):
                    raise TypeError('too many positional arguments')
                d = dict(zip(params, args))
                for k in kwargs:
                    if k in d:
                        raise TypeError('multiple values for %r' % k)
                d.update(kwargs)
                for k in params:
                    if k not in d:
                        raise TypeError('missing argument %r' % k)
                self.glyphs.append((name, d))
            return glyph
        if name.startswith('_'):
            raise AttributeError(name)
        return _missing('Figure.' + name)


def figure(**kwargs):
    return Figure(**kwargs)


def __getattr__(name):
    return _missing(name)
