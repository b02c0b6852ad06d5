from _stubmissing import module_getattr as _mg
from bokeh import LOG
__getattr__ = _mg('bokeh.io')


def output_file(filename, title='Bokeh Plot', mode='cdn', root_dir=None):
    LOG.append(('output_file', filename, title))


def show(obj, browser=None, new='tab', notebook_handle=False,
         notebook_url='localhost:8888'):
    LOG.append(('show', obj))


def save(obj, filename=None, resources=None, title=None, state=None):
    LOG.append(('save', obj))
    return filename
