from isa_8080 import *
CPU = Cpu("i8080", "i8085", "cl_i8080", **KW)


def runs(): return runs_for(False)
