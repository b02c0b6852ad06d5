"""Stand-in for hypothesis: strategies that draw from one random source
(RANDOM), with the bounds and zero overrepresented."""
import random

from _stubmissing import module_getattr as _mg
__getattr__ = _mg('hypothesis')
RANDOM = random.Random(0)
