from isa_8080 import *
CPU = Cpu("i8085", "i8085", "cl_i8085", **KW)


def runs(): return runs_for(True)
