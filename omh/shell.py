import sys, time
from .core import *
def P_():
    t = time.time(); p = Program(); print("loaded %.1fs" % (time.time()-t)); return p
