from _stubmissing import module_getattr as _mg
__getattr__ = _mg('skimage')
from skimage import draw, segmentation  # noqa: E402,F401
