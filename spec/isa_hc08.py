from isa_hc08x import *
CPU = cpu("68HC08", "cl_hc08", "CPU_HC08")


def runs(): return runs_for(False)
