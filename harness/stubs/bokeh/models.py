from _stubmissing import module_getattr as _mg
__getattr__ = _mg('bokeh.models')


class Range1d(object):
    def __init__(self, *args, **kwargs):
        if args and ('start' in kwargs or 'end' in kwargs):
            raise ValueError("'start' and 'end' keywords cannot be used with "
                             "positional arguments")
        if args and len(args) != 2:
            raise ValueError('Only Range1d(start, end) acceptable when using '
                             'positional arguments')
        self.start, self.end = args or (kwargs.pop('start', 0),
                                        kwargs.pop('end', 1))
        self.bounds = kwargs.pop('bounds', None)
        if kwargs:
            raise AttributeError('unexpected attribute %r' % list(kwargs))
