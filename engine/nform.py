from terms import *
def equal(x, y, ctx): return x is y
