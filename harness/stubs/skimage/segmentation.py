import numpy as np
from _stubmissing import module_getattr as _mg, StubMissing
__getattr__ = _mg('skimage.segmentation')


def find_boundaries(label_img, connectivity=1, mode='thick', background=0):
    """Boolean images only, connectivity 1."""
    a = np.asarray(label_img)
    if a.dtype != np.bool_ or connectivity != 1:
        raise StubMissing('find_boundaries on labels')
    p = np.pad(a, 1, mode='edge')
    nb = [p[:-2, 1:-1], p[2:, 1:-1], p[1:-1, :-2], p[1:-1, 2:], a]
    dil = np.logical_or.reduce(nb)
    ero = np.logical_and.reduce(nb)
    b = dil != ero
    if mode == 'outer':
        return b & ~a
    if mode == 'inner':
        return b & a
    if mode == 'thick':
        return b
    raise StubMissing('find_boundaries mode %s' % mode)
