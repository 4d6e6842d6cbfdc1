from isa_hc08x import *
CPU = cpu("68HCS08", "cl_s08", "CPU_HCS08")


def runs(): return runs_for(True)
