"""What drivers (which have no NumPy) have to know of hv.labels."""
import random

NUMBER = 34
ERROR_NAMES = ('TypeError', 'OSError', 'RuntimeError', 'MemoryError', 'ValueError', 'KeyError', 'AttributeError', 'NotImplementedError', 'RecursionError', 'IndexError', 'AssertionError', 'ImportError', 'EOFError', 'PicklingError')


def seed_for(shape, lab):
    """a seed labels.build makes an object of that shape from"""
    s = 0
    while random.Random("%s/%s" % (s, lab)).randrange(NUMBER) != shape % NUMBER:
        s += 1
    return s
