from isa_m68 import *
CPU = cpu("m6801", "m6800", "cl_m6801")


def runs(): return runs_for(1)
