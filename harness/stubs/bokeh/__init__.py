"""Stand-in for bokeh: figures record what is drawn on them."""
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('bokeh')
__version__ = '0.12.5'
LOG = []        # ('output_file', name, title), ('show', fig), ('save', fig)
