from isa_m68 import *
CPU = cpu("m6800", "m6800", "cl_m6800")


def runs(): return runs_for(0)
