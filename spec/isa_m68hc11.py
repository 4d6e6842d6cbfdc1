from isa_m68 import *
CPU = cpu("m68hc11", "m68hc11", "cl_m68hc11")


def runs(): return runs_for(2)
